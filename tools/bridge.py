"""One process with both interfaces: libvbridge.so holds the library's exported symbols and the native
dispatcher of the harness. Lines are prefixed with the face: `n ` (native command) or `c ` (foreign command)."""
import ctypes, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import cabi


def main():
    so, header = sys.argv[1], sys.argv[2]
    lib, do = cabi.server(so, header)
    buf = ctypes.create_string_buffer(1 << 16)
    lib.vh_cmd.restype = ctypes.c_size_t
    lib.vh_cmd.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t]
    for line in sys.stdin:
        face, rest = line[0], line[2:].strip()
        if face == "n":
            n = lib.vh_cmd(rest.encode(), buf, len(buf))
            out = buf.raw[:n].decode()
        else:
            out = do(rest)
        sys.stdout.write(out + "\n")
        sys.stdout.flush()


main()
