"""Calls whose arguments are not what they should be; errors and threads."""
import ctypes as C, queue, threading
from ccs import *
from interp import Skip
from interp2 import DELCB
import interp4
byref = C.byref
V, SZ = C.c_void_p, C.c_size_t
FILL = 0xa5
DESTROY = C.CFUNCTYPE(None, V, V)
_destroy = DESTROY(lambda o, d: None)

def init(it):
    it.world = None
    it.threads = {}
    it.errvars = {}
    it.errobj = None

class Worker(threading.Thread):
    """a thread in which calls are made, one at a time"""
    def __init__(self):
        super().__init__(daemon=True)
        self.q, self.r = queue.Queue(), queue.Queue()
        self.start()

    def run(self):
        while True:
            f = self.q.get()
            try:
                self.r.put((f(), None))
            except Exception as e:
                self.r.put((None, e))

    def do(self, f):
        self.q.put(f)
        r, e = self.r.get()
        if e:
            raise e
        return r

def worker(it, t):
    if t not in it.threads:
        it.threads[t] = Worker()
    return it.threads[t]

class Elem(C.Structure):
    _fields_ = [("file", C.c_char_p), ("line", C.c_int), ("func", C.c_char_p)]

def seen(l, x):
    code, rc = C.c_int32(0), C.c_int32(0)
    msg, n, el = C.c_char_p(), SZ(0), C.POINTER(Elem)()
    for r in (l.error_stack_get_code(x, byref(code)), l.error_stack_get_message(x, byref(msg)),
              l.error_stack_get_elems(x, byref(n), byref(el)), l.object_get_refcount(x, byref(rc)) if x else -1):
        if r:
            return r, 0
    return 0, [code.value, (msg.value or b"").decode(), rc.value, [el[i].line for i in range(n.value)]]

def peek(it):
    """what the calling thread owns: taken, looked at, given back"""
    l = it.l
    x = l.get_thread_error()
    if not x:
        return []
    rc, o = seen(l, x)
    return o if l.set_thread_error(x) == 0 and rc == 0 else [rc]

def op_err(it, o):
    r = worker(it, o["th"]).do(lambda: err(it, o))
    it.extra["pk"] = [worker(it, t).do(lambda: peek(it)) for t in (1, 2)]
    it.extra["pv"] = [seen(it.l, it.errvars[x])[1] if it.errvars.get(x) else [] for x in range(1, 5)]
    return r

def err(it, o):
    l, k, v = it.l, o["k"], it.errvars
    x = v.get(o.get("x"))
    if k == "fail":
        out = V(0)
        n = C.c_int32(0)
        if o["code"] == -2:
            return l.object_get_type(errfix(it), None), 0
        if o["code"] == -9:
            return l.configuration_space_get_parameter_by_name(errfix(it), b"none", byref(out)), 0
        raise Skip("code")
    if k == "ok":
        n = C.c_int32(0)
        return l.object_get_type(errfix(it), byref(n)), 0
    if k == "make":
        return l.L.ccs_create_thread_error(C.c_int32(o["code"]), o["m"].replace("7", "%d").encode(), C.c_int(7)), 0
    if k == "tpush":
        return l.thread_error_stack_push(b"f", o["line"], b"g"), 0
    if k == "get":
        v[o["x"]] = l.get_thread_error()
        return 0, 1 if v[o["x"]] else 0
    if k == "set":
        rc = l.set_thread_error(x)
        if rc == 0:
            v[o["x"]] = None
        return rc, 0
    if k == "share":
        if l.retain_object(x):
            return -104, 0
        return l.set_thread_error(x), 0
    if k == "setbad":
        return l.set_thread_error(errfix(it)), 0
    if k == "clear":
        l.clear_thread_error()
        return 0, 0
    if k == "new":
        r = V(0)
        rc = l.L.ccs_create_error_stack(byref(r), C.c_int32(o["code"]), o["m"].replace("7", "%d").encode(), C.c_int(7))
        v[o["x"]] = r.value
        return rc, 0
    if k == "push":
        return l.error_stack_push(x, b"f", o["line"], b"g"), 0
    if k == "rel":
        v[o["x"]] = None
        return l.release_object(x), 0
    if k == "read":
        return seen(l, x)
    raise Skip(k)

def finish(it):
    """what is left, at the end of a trace"""
    for h in it.errvars.values():
        if h:
            it.l.release_object(h)
    it.errvars = {}
    if it.errobj:
        it.l.release_object(it.errobj)
        it.errobj = None
    for t in it.threads.values():
        t.do(it.l.clear_thread_error)

def errfix(it):
    if not it.errobj:
        r = V(0)
        if it.l.create_configuration_space(b"e", byref(r)):
            raise Skip("fixture")
        it.errobj = r.value
    return it.errobj

class World:
    """one object of each sort"""
    def __init__(self, it):
        self.it, self.l = it, it.l
        self.o = {}
        self.own = []
        self.keep = []
        self.build()

    def mk(self, k, f, *a):
        r = V(0)
        rc = getattr(self.l, f)(*a, byref(r))
        if rc:
            raise Skip("fixture %s: %d" % (k, rc))
        self.o[k] = r.value
        self.own.append(r.value)
        return r.value

    def ok(self, rc):
        if rc:
            raise Skip("fixture")

    def I(self, *v):
        a = (Datum * len(v))()
        for i, x in enumerate(v):
            a[i].t, a[i].v = TI, x
        return a

    def obj(self, k):
        d = Datum()
        d.t, d.v = TO, self.o[k]
        return d

    def harr(self, *ks):
        return (V * len(ks))(*[self.o[k] for k in ks])

    def build(self):
        l, m, o = self.l, self.mk, self.o
        m("rng", "create_rng")
        l.rng_set_seed(o["rng"], 7)
        m("map", "create_map")
        for i in (1, 2):
            self.ok(l.map_set(o["map"], self.I(i)[0], self.I(i)[0]))
        e = V(0)
        self.ok(l.create_error_stack(byref(e), C.c_int32(-5), b"fixture"))
        o["err"] = e.value
        self.own.append(e.value)
        m("num", "create_int_numerical_parameter", b"a", 0, 9, 0, 0)
        m("newp", "create_int_numerical_parameter", b"n1", 0, 9, 0, 0)
        m("newp2", "create_int_numerical_parameter", b"n2", 0, 9, 0, 0)
        for k in ("cat", "ord", "disc"):
            m(k, "create_%s_parameter" % {"cat": "categorical", "ord": "ordinal", "disc": "discrete"}[k],
              b"b" if k == "cat" else k.encode(), 2, self.I(1, 2), 0)
        m("str", "create_string_parameter", b"s")
        m("uni", "create_uniform_int_distribution", 0, 10, 0, 0)
        m("nor", "create_normal_float_distribution", 0., 1., 0, 0.)
        half = (C.c_double * 2)(.5, .5)
        m("rou", "create_roulette_distribution", 2, half)
        m("mix", "create_mixture_distribution", 2, self.harr("uni", "uni"), half)
        m("mul", "create_multivariate_distribution", 2, self.harr("uni", "rou"))
        m("var", "create_variable", o["num"])
        m("varb", "create_variable", o["cat"])
        m("lit", "create_literal", self.I(1)[0])
        m("expr", "create_binary_expression", 2, self.obj("var"), self.obj("varb"))
        m("expr2", "create_binary_expression", 2, self.obj("var"), self.I(7)[0])
        l2 = self.I(1, 2)
        l2[1] = self.obj("var")
        m("list", "create_expression", 17, 2, l2)
        for k in ("cs", "fs", "os"):
            m(k, "create_%s_space" % {"cs": "configuration", "fs": "features", "os": "objective"}[k], k.encode())
        ps = self.harr("num", "cat")
        self.ok(l.configuration_space_add_parameters(o["cs"], 2, ps, None))
        self.ok(l.features_space_add_parameters(o["fs"], 2, ps))
        self.ok(l.objective_space_add_parameters(o["os"], 2, ps))
        self.ok(l.configuration_space_add_forbidden_clauses(o["cs"], 2, self.harr("expr2", "expr2")))
        self.ok(l.objective_space_add_objectives(o["os"], 2, self.harr("var", "varb"), (C.c_int32 * 2)(0, 0)))
        m("conf", "create_configuration", o["cs"], 2, self.I(2, 1))
        m("feat", "create_features", o["fs"], 2, self.I(2, 1))
        for k, v in (("leaf", 3), ("leaf2", 4)):
            m(k, "create_tree", 2, self.I(v)[0])
        for k, v in (("tree", 1), ("mid", 2), ("mid2", 5), ("bare", 6), ("newtree", 7)):
            m(k, "create_tree", 2, self.I(v)[0])
        for a, i, b in (("tree", 0, "mid"), ("tree", 1, "mid2"), ("mid", 0, "leaf"), ("mid", 1, "leaf2")):
            self.ok(l.tree_set_child(o[a], i, o[b]))
        m("tspace", "create_static_tree_space", b"ts", o["tree"])
        m("dyntree", "create_tree", 2, self.I(1)[0])
        m("dyn", "create_dynamic_tree_space", b"ds", o["dyntree"], byref(self.it.tvecs[1]), None)
        m("tconf", "create_tree_configuration", o["tspace"], 2, (SZ * 2)(0, 0))
        for i, v in (("", (0, 2)), ("2", (2, 1))):
            m("eval" + i, "create_evaluation", o["os"], o["conf"], 0, 2, self.I(*v))
            m("feval" + i, "create_features_evaluation", o["os"], o["conf"], o["feat"], 0, 2, self.I(*v))
            m("teval" + i, "create_tree_evaluation", o["os"], o["tconf"], 0, 2, self.I(*v))
        m("tuner", "create_random_tuner", b"t", o["cs"], o["os"])
        m("ftuner", "create_random_features_tuner", b"t", o["cs"], o["fs"], o["os"])
        m("ttuner", "create_random_tree_tuner", b"t", o["tspace"], o["os"])
        self.ok(l.tuner_tell(o["tuner"], 2, self.harr("eval", "eval2")))
        self.ok(l.features_tuner_tell(o["ftuner"], 2, self.harr("feval", "feval2")))
        self.ok(l.tree_tuner_tell(o["ttuner"], 2, self.harr("teval", "teval2")))
        self.vec = {k: interp4.vector(self.it, k, 7) for k in ("tuner", "ftuner", "ttuner")}
        m("utuner", "create_user_defined_tuner", b"t", o["cs"], o["os"], self.vec["tuner"], None)
        m("uftuner", "create_user_defined_features_tuner", b"t", o["cs"], o["fs"], o["os"], self.vec["ftuner"], None)
        m("uttuner", "create_user_defined_tree_tuner", b"t", o["tspace"], o["os"], self.vec["ttuner"], None)

    def free(self):
        for h in reversed(self.own):
            self.l.release_object(h)

    def counts(self):
        n = C.c_int32(0)
        out = []
        for k in sorted(self.o):
            self.l.object_get_refcount(self.o[k], byref(n))
            out.append(n.value)
        return out

def cval(t, v):
    at = argtype(t)
    if v == "null":
        return None
    return float(v) if at is C.c_double else v

OVER = {"n": lambda n: n, "n+1": lambda n: n + 1, "2^32": lambda n: 1 << 32, "2^32+": lambda n: (1 << 32) + n - 1, "max": lambda n: (1 << 64) - 1}

def op_call(it, o):
    """one call; the faults are in w"""
    if it.world is None:
        it.world = World(it)
    w = it.world
    f = o["f"]
    faults = {x[0] - 1: x[1:] for x in o["w"]}
    proto = PROTOS["ccs_" + f][1]
    outs, ins, args = [], [], []
    nothing = any(x[0] == "nothing" for x in faults.values())
    def buf(n=1):
        b = (C.c_ubyte * (n * 256))(*([FILL] * (n * 256)))
        outs.append(b)
        return b
    for i, (g, (t, _)) in enumerate(zip(o["g"], proto)):
        c = g[0]
        x = faults.get(i, [""])
        if c[0] == "h":
            a = None if x[0] == "null" else w.o[x[1]] if x[0] == "wrong" else w.o[g[1]]
        elif c in ("s", "sl"):
            a = None if x[0] == "null" else b"zz" if x[0] == "absent" else g[1].encode()
        elif c in ("n", "ns"):
            a = 0 if nothing else g[1] - 1 if x[0] == "small" else g[1]
        elif c in ("x", "xv"):
            a = OVER[x[1]](g[1]) if x[0] == "over" else g[1] - 1
        elif c in ("ah", "ahp", "aho", "ph"):
            hs = [w.o[k] for k in g[1]]
            if x[0] == "enull":
                hs[-1] = None
            elif x[0] == "ewrong":
                hs[-1] = w.o[x[1]]
            a = None if x[0] == "null" else (V * len(hs))(*hs)
        elif c in ("ai", "p"):
            a = None if x[0] == "null" else inp(it, w, g[1])
        elif c in ("ao", "o", "oo", "og", "r"):
            b = buf(4)
            a = None if x[0] == "null" or nothing and c in ("ao", "og", "r") else b
        elif c == "ap":
            a = None if x[0] == "null" else (V * 2)(C.addressof(buf()), C.addressof(buf()))
        elif c == "d":
            a = w.I(g[1])[0]
        else:
            a = cval(t, g[1])
        if a is not None and isinstance(a, C.Array) and not isinstance(a, bytes):
            ins.append(a)
        args.append(C.cast(a, V) if isinstance(a, C.Array) else a)
    refs = w.counts()
    live = it.l.L.vp_get_live()
    rc = getattr(it.l, f)(*args)
    if rc == 0:
        it.world = None
        w.keep += [args, ins, outs]
        it.l.clear_thread_error() if False else None
        return 0, [0, 0, 0]
    # the error itself is kept by the thread: not a leak
    te = it.l.take_error()
    it.extra["te"] = list(te) if te else [0, 0, 0]
    bad = [1 if any(x != FILL for b in outs for x in bytes(b)) else 0, it.l.L.vp_get_live() - live,
           1 if w.counts() != refs else 0]
    if bad != [0, 0, 0]:
        it.world = None
    return rc, bad

def inp(it, w, k):
    if k in ("datum", "values"):
        return w.I(*((1, 1) if k == "datum" else (1, 2)))
    if k == "zeros":
        return (SZ * 2)(0, 0)
    if k == "ix":
        return (SZ * 2)(0, 1)
    if k == "half":
        return (C.c_double * 2)(.5, .5)
    if k == "otypes":
        return (C.c_int32 * 2)(0, 1)
    if k == "numeric":
        return (C.c_int64 * 2)(1, 2)
    if k == "interval":
        a = (Interval * 2)()
        for x in a:
            x.t, x.lo, x.hi, x.li, x.ui = 1, 0, 5, 1, 0
        return a
    if k == "tsvec":
        b = (C.c_ubyte * C.sizeof(it.tvecs[1]))()
        C.memmove(b, byref(it.tvecs[1]), C.sizeof(b))
        return b
    if k in ("tvec", "ftvec", "ttvec"):
        return w.vec[{"tvec": "tuner", "ftvec": "ftuner", "ttvec": "ttuner"}[k]]
    if k == "gsl":
        return it.l.L.vp_gsl_type(0)
    if k == "destroy":
        return C.cast(_destroy, V).value
    raise Skip(k)
