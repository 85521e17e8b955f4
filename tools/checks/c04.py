"""C04: random programs of Api.tla (mode "value") replayed; Api.tla itself model-checked."""
from programs import *
from checks.c02 import model


def main(chk):
    model(chk)
    n, b = (150, 40) if THOROUGH else (150, 2)
    run_programs(chk, "value", n, b, focus_known="D1b")
