-------------------------------- MODULE GRat --------------------------------
(* Exact Gaussian rationals (re + i im)/d with d > 0, in lowest terms.                                *)
EXTENDS Integers
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LOCAL G3(a, b, c) == Gcd(Gcd(Abs(a), Abs(b)), Abs(c))
Mk(re, im, d) == LET g == G3(re, im, d)
                     s == IF d < 0 THEN -1 ELSE 1 IN
                 [re |-> (s * re) \div g, im |-> (s * im) \div g, d |-> (s * d) \div g]
Whole(n) == Mk(n, 0, 1)
Zero == Whole(0)
ImUnit == Mk(0, 1, 1)
Add(x, y) == LET g == Gcd(x.d, y.d) IN
             Mk(x.re * (y.d \div g) + y.re * (x.d \div g), x.im * (y.d \div g) + y.im * (x.d \div g), x.d * (y.d \div g))
Neg(x) == [x EXCEPT !.re = -@, !.im = -@]
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re, x.d * y.d)
(* 1/y = conj(y) d / (re^2 + im^2) *)
Inv(y) == LET n == y.re * y.re + y.im * y.im
              g == Gcd(n, y.d) IN Mk(y.re * (y.d \div g), -y.im * (y.d \div g), n \div g)
Div(x, y) == Mul(x, Inv(y))
(* |x|^2 < (p/q)^2 *)
Below(x, p, q) == (x.re * x.re + x.im * x.im) * q * q < p * p * x.d * x.d
=============================================================================
