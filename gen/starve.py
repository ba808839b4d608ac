"""The executions of another generator, with every allocation of some calls made to fail in turn.
An operation with "oom": n is executed with its n-th allocation failing; when it reports that, it is executed again
with the next one failing, until it no longer runs out of memory."""
import random

# calls that destroy, that take their elements one by one, or that hold state between calls of the caller's
NEVER = {"rel", "relall", "end", "ret", "call", "cb", "fdput", "fdget", "fdopen", "fdwrong", "script", "begin", "twin", "trunc", "damage"}

# what is looked at after a call that ran out of memory, before it is made again
AFTER = {"cscond": "s", "csforb": "s", "cssetdist": "s", "ctxadd": "s", "osobj": "s", "mset": "m", "mdel": "m", "bset": "b",
         "bsets": "b", "tell": "s", "tset": "s"}

def whole(o):
    if o["a"] in NEVER or o["a"] in ("ser", "deser") and o.get("m"):
        return False
    return all(len(o[f]) <= 1 for f in ("ps", "es", "bs") + ("vals",) * (o["a"] == "bsets") if isinstance(o.get(f), list))

def after(o, kinds):
    f = AFTER.get(o["a"])
    if f is None:
        return {}
    x = o[f]
    a = {"m": "mdump", "b": "bvals"}.get(f) or {"tell": "tuhist", "tset": "tinfo"}.get(o["a"]) or \
        {"cs": "csdump", "fs": "ctxdump", "os": "osdump"}.get(kinds.get(x))
    if a is None:
        return {}
    return {"then": [dict({"a": a, f: x}, **({"g": 0} if a == "bvals" else {}))]}

def starved(f, share=.25):
    def g(seed, *a):
        r = random.Random(seed ^ 0x5eed)
        t = f(seed, *a)
        kinds = {o["d"]: o["k"] for o in t if o["a"] == "mkctx"}
        return [dict(o, oom=0, **after(o, kinds)) if whole(o) and r.random() < share else o for o in t]
    g.__name__ = "starved_" + f.__name__
    return g
