"""C02: random programs of Api.tla (mode "global") replayed; Api.tla itself model-checked."""
from programs import *


def main(chk):
    model(chk)
    n, b = (150, 40) if THOROUGH else (150, 2)
    run_programs(chk, "global", n, b)


def model(chk, leak=True):
    """The specification has the properties; the code as built (finding D1) lacks non-interference."""
    r = tlc("Api", "ApiMC", workers=4)
    if not r.ok:
        raise ToolError("Api.tla: " + r.error)
    chk.add_tlc(r, "Api (exhaustive, ideal)")
    if leak:
        r = tlc("Api", "ApiLeak")
        if r.ok or "NonInterference" not in r.error + r.out:
            raise ToolError("Api.tla with Leak: expected NonInterference to fail:\n" + r.error)
        chk.add_tlc(r, "Api (as built: NonInterference refuted, finding D1)")
