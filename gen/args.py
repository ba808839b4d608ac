"""Calls with wrong arguments; errors of threads."""
from .tour import tours
def calls(emitted, per=400):
    """one trace for each function"""
    by = {}
    for e in emitted:
        by.setdefault(e["f"], []).append({"a": "call", "f": e["f"], "g": e["g"], "w": sorted(e["w"], key=str)})
    out = []
    for f in sorted(by):
        l = sorted(by[f], key=lambda o: (len(o["w"]), str(o["w"])))
        for i in range(0, len(l), per):
            out.append([dict(l[i], errs=1)] + l[i + 1:i + per])
    return out

def errors(edges):
    """walks through every transition of the model of errors"""
    return [w + [{"a": "end", "seed": i}] for i, w in enumerate(tours(edges))]
