#!/usr/bin/env python3
"""Line-protocol server over the C interface: loads the shared library with ctypes and takes every
signature from the header that the build of /repo generated, as a C or Cython program would.

    set REG VALUE | get | eval SYMBOL ARGS... | list
Numbers travel as in the Rust harness (16 hex digits per float; `re,im` for a complex number).
"""
import ctypes, re, struct, sys


class Cx(ctypes.Structure):
    _fields_ = [("re", ctypes.c_double), ("im", ctypes.c_double)]


CT = {"R": ctypes.c_double, "double": ctypes.c_double, "C": Cx, "NCTYPE": ctypes.c_uint32, "NFTYPE": ctypes.c_uint32,
      "uint32_t": ctypes.c_uint32, "void": None, "uint64_t": ctypes.c_uint64, "int32_t": ctypes.c_int32}


def signatures(header):
    t = re.sub(r"/\*.*?\*/", " ", open(header).read(), flags=re.S)
    t = re.sub(r"//[^\n]*", " ", t)
    out = {}
    for m in re.finditer(r"^\s*(?:extern\s+)?([A-Za-z_]\w*)\s+(\w+)\s*\(([^()]*)\)\s*;", t, flags=re.M):
        ret, name, args = m.groups()
        al = []
        for a in args.split(","):
            a = a.split()
            if not a or a == ["void"]:
                continue
            al.append((a[-1], a[-2]))
        out[name] = (ret, al)
    return out


def hx(x):
    return struct.pack(">d", x).hex()


def xh(s):
    return struct.unpack(">d", bytes.fromhex(s))[0]


S = {"nc": "set_number_of_colors", "nf": "set_number_of_fermions", "mq": "set_default_quark_mass",
     "tol": "set_default_tol_integral", "it": "set_default_max_iter_integral", "reg": "set_matsubara_reg"}
GET = ["get_number_of_colors", "get_number_of_fermions", "get_default_quark_mass", "get_default_tol_integral",
       "get_default_max_iter_integral", "get_matsubara_reg"]


def server(so, header):
    sig = signatures(header)
    lib = ctypes.CDLL(so)
    cache = {}

    def fn(name):
        if name not in cache:
            f = getattr(lib, name)
            ret, al = sig[name]
            f.restype = CT[ret]
            f.argtypes = [CT[t] for _, t in al]
            cache[name] = f
        return cache[name]

    def do(line):
        t = line.split()
        try:
            if t[0] == "set":
                f = fn(S[t[1]])
                f(xh(t[2]) if f.argtypes[0] is ctypes.c_double else int(t[2]))
                return "OK"
            if t[0] == "get":
                o = []
                for g in GET:
                    v = fn(g)()
                    o.append(hx(v) if isinstance(v, float) else str(v))
                return "G " + " ".join(o)
            if t[0] == "list":
                return " ".join("%s:%s:%s" % (n, ret, ",".join("%s=%s" % a for a in al)) for n, (ret, al) in sorted(sig.items()))
            if t[0] == "eval":
                f = fn(t[1])
                a = []
                for x, c in zip(t[2:], f.argtypes):
                    if "," in x:
                        re_, im = x.split(",")
                        v = Cx(xh(re_), xh(im)) if c is Cx else xh(re_)
                    else:
                        v = Cx(xh(x), 0.0) if c is Cx else xh(x)
                    a.append(v)
                v = f(*a)
                return "C %s,%s" % (hx(v.re), hx(v.im)) if isinstance(v, Cx) else "R " + hx(v)
        except (KeyError, AttributeError) as e:
            return "MISSING %s" % e
        return "BAD"
    return lib, do


def main():
    _, do = server(sys.argv[1], sys.argv[2])
    for line in sys.stdin:
        if line.split():
            sys.stdout.write(do(line) + "\n")
            sys.stdout.flush()


if __name__ == "__main__":
    main()
