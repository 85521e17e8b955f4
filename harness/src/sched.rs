//! A number type that lets other work happen between any two of its operations: a deterministic
//! scheduler for the generic functions of the library.
use num::complex::ComplexFloat;
use qcd_sme::{Num, C, R};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::ops::*;

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    // positions still to come, in descending order
    static PLAN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static ACT: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

fn tick() {
    let t = TICKS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let due = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        if p.last() == Some(&t) {
            p.pop();
            true
        } else {
            false
        }
    });
    if due {
        // taken out while it runs: what it does must not run it again
        let f = ACT.with(|a| a.borrow_mut().take());
        if let Some(mut f) = f {
            f();
            ACT.with(|a| *a.borrow_mut() = Some(f));
        }
    }
}

/// Runs `f`, and `act` just before the operations at the given positions; returns also how many
/// operations there were.
pub fn scheduled<T>(mut at: Vec<u64>, act: Box<dyn FnMut()>, f: impl FnOnce() -> T) -> (T, u64) {
    at.sort_unstable_by(|a, b| b.cmp(a));
    at.dedup();
    TICKS.with(|c| c.set(0));
    PLAN.with(|p| *p.borrow_mut() = at);
    ACT.with(|a| *a.borrow_mut() = Some(act));
    let r = f();
    ACT.with(|a| *a.borrow_mut() = None);
    PLAN.with(|p| p.borrow_mut().clear());
    (r, TICKS.with(|c| c.get()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct J(pub C);

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl $tr<J> for J {
            type Output = J;
            fn $f(self, o: J) -> J {
                tick();
                J(self.0.$f(o.0))
            }
        }
        impl $tr<R> for J {
            type Output = J;
            fn $f(self, o: R) -> J {
                tick();
                J(self.0.$f(o))
            }
        }
        impl $tr<C> for J {
            type Output = C;
            fn $f(self, o: C) -> C {
                tick();
                self.0.$f(o)
            }
        }
        impl $tr<J> for R {
            type Output = J;
            fn $f(self, o: J) -> J {
                tick();
                J(self.$f(o.0))
            }
        }
        impl $tr<J> for C {
            type Output = C;
            fn $f(self, o: J) -> C {
                tick();
                self.$f(o.0)
            }
        }
        impl $tra<J> for J {
            fn $fa(&mut self, o: J) {
                *self = self.$f(o)
            }
        }
        impl $tra<R> for J {
            fn $fa(&mut self, o: R) {
                *self = self.$f(o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign);
bin!(Sub, sub, SubAssign, sub_assign);
bin!(Mul, mul, MulAssign, mul_assign);
bin!(Div, div, DivAssign, div_assign);
impl Rem for J {
    type Output = J;
    fn rem(self, o: J) -> J {
        J(self.0 % o.0)
    }
}
impl Neg for J {
    type Output = J;
    fn neg(self) -> J {
        tick();
        J(-self.0)
    }
}
impl num::Zero for J {
    fn zero() -> J {
        J(C::new(0., 0.))
    }
    fn is_zero(&self) -> bool {
        self.0 == C::new(0., 0.)
    }
}
impl num::One for J {
    fn one() -> J {
        J(C::new(1., 0.))
    }
}
impl num::Num for J {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<J, ()> {
        Err(())
    }
}
impl From<R> for J {
    fn from(x: R) -> J {
        J(C::new(x, 0.))
    }
}
impl From<J> for C {
    fn from(x: J) -> C {
        tick();
        x.0
    }
}
impl Num for J {
    fn abs(&self) -> R {
        tick();
        ComplexFloat::abs(self.0)
    }
    fn exp(&self) -> Self {
        tick();
        J(Num::exp(&self.0))
    }
    fn im(&self) -> R {
        tick();
        self.0.im
    }
    fn inv(&self) -> Self {
        tick();
        J(Num::inv(&self.0))
    }
    fn ln(&self) -> Self {
        tick();
        J(Num::ln(&self.0))
    }
    fn re(&self) -> R {
        tick();
        self.0.re
    }
    fn sqrt(&self) -> Self {
        tick();
        J(Num::sqrt(&self.0))
    }
}
