"""User-defined tuners: the user's side of them, and the operations on them."""
import ctypes as C
from ccs import *
from interp import Drop, Skip
from interp2 import tf, DELCB, TSVec
byref = C.byref
V, SZ, PSZ, PV = C.c_void_p, C.c_size_t, C.POINTER(C.c_size_t), C.POINTER(C.c_void_p)
F = lambda *a: C.CFUNCTYPE(C.c_int32, *a)
SUGGEST, SAVE, LOAD = 1, 2, 4
FIELDS = ("del", "ask", "tell", "get_optima", "get_history", "suggest", "ser", "des")
PREC = {"tuner": "user_defined_tuner", "ftuner": "user_defined_features_tuner", "ttuner": "user_defined_tree_tuner"}

class UT:
    """what a user-defined tuner keeps"""
    def __init__(self):
        self.hist, self.opt, self.st = [], [], 0

def init(it):
    it.ut = {}          # handle -> UT
    it.uth = {}         # handle -> slot
    it.ucb = []         # callbacks made
    it.uq = 0           # quiet: callbacks made on the driver's own behalf
    it.urc = 0          # what the next callback answers
    it.give = []
    it.cnt = 0
    it.udel = 0
    it.cvec = {}
    for k in ("tuner", "ftuner", "ttuner"):
        x = (V,) if k == "ftuner" else ()
        it.cvec[k] = {
            "del": DELCB(lambda t, k=k: _del(it, k, t)),
            "ask": F(V, *x, SZ, PV, PSZ)(lambda t, *a, k=k: _ask(it, k, t, *a)),
            "tell": F(V, SZ, PV)(lambda t, n, a, k=k: _tell(it, k, t, n, a)),
            "get_optima": F(V, *x, SZ, PV, PSZ)(lambda t, *a, k=k: _list(it, k, "opt", t, *a)),
            "get_history": F(V, *x, SZ, PV, PSZ)(lambda t, *a, k=k: _list(it, k, "hist", t, *a)),
            "suggest": F(V, *x, PV)(lambda t, *a, k=k: _suggest(it, k, t, *a)),
            "ser": F(V, SZ, V, PSZ)(lambda t, n, b, r, k=k: _save(it, t, n, b, r)),
            "des": F(V, SZ, PV, SZ, PV, SZ, V)(lambda t, nh, h, no, o, n, b, k=k: _load(it, k, t, nh, h, no, o, n, b))}
    # a dynamic tree space that keeps a state
    it.tsst = {}
    it.c_tsser = F(V, SZ, V, PSZ)(lambda t, n, b, r: _tssave(it, t, n, b, r))
    it.c_tsdes = F(V, SZ, V)(lambda t, n, b: _tsload(it, t, n, b))
    it.tvecs[3] = TSVec(it.tvecs[1].del_, it.tvecs[1].get_child, C.cast(it.c_tsser, V), C.cast(it.c_tsdes, V))

def vector(it, k, v, bad=None):
    a = (V * 8)()
    for i, f in enumerate(FIELDS):
        if f == bad or f == "suggest" and not v & SUGGEST or f == "ser" and not v & SAVE or f == "des" and not v & LOAD:
            continue
        a[i] = C.cast(it.cvec[k][f], V).value
    return a

def data(it, k, t):
    d = V(0)
    rc = getattr(it.l, PREC[k] + "_get_tuner_data")(t, byref(d))
    return d.value or 0 if rc == 0 else rc

def log(it, *a):
    if not it.uq:
        it.ucb.append(list(a))

def ut(it, t):
    return it.ut.setdefault(t, UT())

def text(st):
    return (b"%d." % st) * (1 + st % 3) if st else b""
def untext(b):
    try:
        n = int(b.split(b".")[0]) if b else 0
    except ValueError:
        return -1
    return n if text(n) == b else -1

def put_state(it, st, n, buf, ret):
    if it.urc and not it.uq:
        return it.urc
    b = text(st)
    if ret:
        ret[0] = len(b)
    if buf:
        if n < len(b):
            return -2
        C.memmove(buf, b, len(b))
    return 0

def _del(it, k, t):
    if not it.uq:
        if t in it.uth:
            it.dels.append(it.uth.pop(t))
        else:
            it.udel += 1
    u = it.ut.pop(t, None)
    if u:
        for e in u.hist:
            it.l.release_object(e)
    return 0

def feat(it, k, a):
    """the features argument, and the others"""
    return ([("h", a[0] or 0)], a[1:]) if k == "ftuner" else ([], a)

def _ask(it, k, t, *a):
    f, (n, arr, ret) = feat(it, k, a)
    log(it, "ask", data(it, k, t), *f, n, 1 if arr else 0, 1 if ret else 0)
    if it.urc:
        return it.urc
    if arr:
        for i in range(n):
            arr[i] = it.give[i]
            it.l.retain_object(it.give[i])
    if ret:
        ret[0] = it.cnt
    return 0

def _tell(it, k, t, n, a):
    log(it, "tell", data(it, k, t), [("h", a[i] or 0) for i in range(n)])
    if it.urc:
        return it.urc
    u = ut(it, t)
    for i in range(n):
        it.l.retain_object(a[i])
        u.hist.append(a[i])
    u.opt = u.hist[-1:]
    return 0

def _list(it, k, w, t, *a):
    f, (n, arr, ret) = feat(it, k, a)
    log(it, w, data(it, k, t), *f, n, 1 if arr else 0, 1 if ret else 0)
    if it.urc:
        return it.urc
    l = getattr(ut(it, t), w)
    if arr:
        if n < len(l):
            return -2
        for i in range(n):
            arr[i] = l[i] if i < len(l) else None
    if ret:
        ret[0] = len(l)
    return 0

def _suggest(it, k, t, *a):
    f, (ret,) = feat(it, k, a)
    log(it, "suggest", data(it, k, t), *f)
    if it.urc:
        return it.urc
    ret[0] = it.give[0]
    it.l.retain_object(it.give[0])
    return 0

def _save(it, t, n, b, r):
    return put_state(it, ut(it, t).st, n, b, r)

def _load(it, k, t, nh, h, no, o, n, b):
    st = untext(C.string_at(b, n) if n else b"")
    log(it, "load", data(it, k, t), [("h", h[i] or 0) for i in range(nh)], [("h", o[i] or 0) for i in range(no)], st)
    if it.urc:
        return it.urc
    u = ut(it, t)
    for i in range(nh):
        it.l.retain_object(h[i])
        u.hist.append(h[i])
    u.opt = [o[i] for i in range(no)]
    u.st = st
    return 0

def _tssave(it, t, n, b, r):
    return put_state(it, it.tsst.get(t, 0), n, b, r)

def _tsload(it, t, n, b):
    st = untext(C.string_at(b, n) if n else b"")
    log(it, "tload", st)
    if it.urc:
        return it.urc
    it.tsst[t] = st
    return 0

class calls:
    """the callbacks made by a call end in the event"""
    def __init__(self, it, o):
        self.it, self.o = it, o
    def __enter__(self):
        it = self.it
        it.ucb, it.urc, it.cnt, it.udel = [], self.o.get("urc", 0), self.o.get("cnt", 0), 0
        it.give = [it.H(s) for s in self.o.get("give", [])]
    def __exit__(self, *a):
        self.it.urc = 0

def shown(it, x):
    if isinstance(x, tuple):
        return it.S(x[1]) if x[1] else 0
    return [shown(it, y) for y in x] if isinstance(x, list) else x

def report(it):
    it.extra["ucb"] = shown(it, it.ucb)

def op_mkut(it, o):
    t = V(0)
    k = o["k"]
    vec = vector(it, k, o["v"], o.get("bad"))
    sp = [it.H(o["cs"])] + ([it.H(o["fs"])] if k == "ftuner" else []) + [it.H(o["os"])]
    rc = getattr(it.l, "create_" + PREC[k])(it.name(o["name"]), *sp, C.cast(vec, V), V(o["dat"]), byref(t))
    C.memset(vec, 0xee, C.sizeof(vec))
    if rc == 0:
        it.reg(o["d"], t, k)
        it.ut[t.value] = UT()
        it.uth[t.value] = o["d"]
    return rc, 0

def op_utst(it, o):
    it.ut[it.H(o["s"])].st = o["v"]
    return 0, 0

def op_utdata(it, o):
    d = V(0)
    rc = getattr(it.l, PREC[it.k[o["s"]]] + "_get_tuner_data")(it.H(o["s"]), byref(d))
    return rc, d.value or 0

def fcall(it, o, n):
    s = o["s"]
    f = tf(it, s, n)
    h = it.H(s)
    return (lambda *x: f(h, it.H(o.get("f", 0)), *x)) if it.k[s] == "ftuner" and n != "tell" else (lambda *x: f(h, *x))

def op_uask(it, o):
    n = o["n"]
    a = (V * (n + 1))()
    m = SZ(777)
    with calls(it, o):
        rc = fcall(it, o, "ask")(n, a if n and o.get("arr", 1) else None, byref(m) if o["ret"] else None)
    report(it)
    if rc:
        return rc, 0
    out = []
    for i in range(n):
        s = it.S(a[i])
        it.uref[s] = it.uref.get(s, 0) + 1
        out.append(s)
    return 0, [out, m.value if o["ret"] else -1]

def op_utell(it, o):
    with calls(it, o):
        rc = fcall(it, o, "tell")(len(o["es"]), it.handles(o["es"]))
    report(it)
    return rc, 0

def op_ulist(it, o):
    n = o["n"]
    a = (V * (n + 1))(*([1] * (n + 1)))
    m = SZ(777)
    with calls(it, o):
        rc = fcall(it, o, "get_optima" if o["w"] == "opt" else "get_history")(
            n, a if n and o.get("arr", 1) else None, byref(m) if o["ret"] else None)
    report(it)
    return rc, [[it.S(a[i]) if a[i] != 1 else -7 for i in range(n)], m.value if o["ret"] else -1] if rc == 0 else 0

def op_usug(it, o):
    c = V(0)
    with calls(it, o):
        rc = fcall(it, o, "suggest")(byref(c))
    report(it)
    if rc:
        return rc, 0
    s = it.S(c.value)
    it.uref[s] = it.uref.get(s, 0) + 1
    return 0, s

def op_tsst(it, o):
    """the user's state of a dynamic tree space"""
    it.tsst[it.H(o["s"])] = o["v"]
    return 0, 0
