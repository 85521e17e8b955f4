#!/usr/bin/env python3
"""Line-protocol server over the Cython module of the repository, whose text is executed as Python: `cimport`ed names are the
functions of the shared library with the signatures that the generated .pxd declares.  usage: pyx.py SO PXD PYX
Commands as in cabi.py (`list`, `eval NAME ARGS...`)."""
import ctypes, re, sys
from cabi import CT, Cx, hx, signatures, xh


def load(so, pxd, pyx):
    sig, lib = signatures(pxd), ctypes.CDLL(so)

    def sym(n):
        if n == "C":
            return Cx
        f = getattr(lib, n)
        ret, al = sig[n]
        f.restype, f.argtypes = CT[ret], [CT[t] for _, t in al]
        return f
    text = open(pyx).read()
    text = re.sub(r"^from\s+qcd_sme\s+cimport\s+(\w+)\s+as\s+(\w+)\s*$", r'\2 = __sym("\1")', text, flags=re.M)
    text = re.sub(r"^from\s+qcd_sme\s+cimport\s+(\w+)\s*$", r'\1 = __sym("\1")', text, flags=re.M)
    ns = {"__sym": sym}
    exec(compile(text, pyx, "exec"), ns)
    return {k: v for k, v in ns.items() if callable(v) and hasattr(v, "__code__") and k != "__sym"}


def main():
    try:
        fs = load(*sys.argv[1:4])
    except SyntaxError as e:
        print("NOT-PYTHON %s" % e, flush=True)
        return
    except Exception as e:
        print("BROKEN %r" % e, flush=True)
        return
    print("READY", flush=True)
    for line in sys.stdin:
        t = line.split()
        try:
            if t[0] == "list":
                ans = " ".join(["L"] + sorted(fs))
            else:
                a = [complex(*(xh(y) for y in x.split(","))) if "," in x else xh(x) for x in t[2:]]
                v = fs[t[1]](*a)
                ans = "C %s,%s" % (hx(v.real), hx(v.imag)) if isinstance(v, complex) else "R " + hx(v)
        except Exception as e:
            ans = "PANIC %r" % e
        print(ans, flush=True)


main()
