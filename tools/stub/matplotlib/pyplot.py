"""Records every figure as one JSON line in the file named by VERIF_PLOTS; draws nothing."""
import json, os

_now = {}


def _fresh():
    _now.clear()
    _now.update(series=[], title=None)


def figure(*a, **k):
    _fresh()


def title(t):
    _now["title"] = t


def plot(x, y, *a, **k):
    _now["series"].append(dict(x=list(x), y=list(y), label=k.get("label")))


scatter = bar = plot


def savefig(path, *a, **k):
    with open(os.environ["VERIF_PLOTS"], "a") as f:
        f.write(json.dumps(dict(_now, path=str(path))) + "\n")
    open(path, "w").close()
    _fresh()


def _nothing(*a, **k):
    pass


rc = autoscale = xlabel = ylabel = xscale = yscale = xlim = ylim = legend = close = _nothing
