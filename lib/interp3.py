"""Operations on serialised objects."""
import ctypes as C, os, tempfile
from ccs import *
from interp import Drop, Skip, ETYPES
import interp4
byref = C.byref

SCB = C.CFUNCTYPE(C.c_int32, C.c_void_p, C.c_size_t, C.c_void_p, C.POINTER(C.c_size_t), C.c_void_p)
DCB2 = C.CFUNCTYPE(C.c_int32, C.c_void_p, C.c_size_t, C.c_void_p, C.c_void_p)
SIZE, MEM, FILE, FD = range(4)
S_END, S_NB, S_CB = range(3)
D_END, D_MAP, D_VEC, D_DATA, D_NB, D_CB = range(6)
I32 = C.c_int32
libc = C.CDLL(None)
libc.malloc.restype = C.c_void_p
libc.malloc.argtypes = [C.c_size_t]
libc.free.argtypes = [C.c_void_p]
SENT = 0x5a5a5a5a

def init(it):
    it.c_scb = SCB(lambda o, n, buf, ret, ud: _scb(it, o, n, buf, ret, ud))
    it.c_dcb = DCB2(lambda o, n, buf, ud: _dcb(it, o, n, buf, ud))

def _scb(it, o, n, buf, ret, add):
    """user data written as text, padded so that its size varies"""
    v = C.c_void_p(0)
    it.l.object_get_user_data(o, byref(v))
    x = (v.value or 0) + (add or 0)
    s = b"%d" % x + b" " * (x % 7)
    if ret:
        ret[0] = len(s)
    if buf:
        if n != len(s):
            return -27
        C.memmove(buf, s, n)
    return 0

def _dcb(it, o, n, buf, ud):
    it.l.object_set_user_data(o, int(C.string_at(buf, n)))
    return 0

def sopts(it, cb, nb=None):
    a = []
    if nb is not None:
        a += [I32(S_NB), nb]
    if cb:
        a += [I32(S_CB), it.c_scb, C.c_void_p(cb)]
    return a + [I32(S_END)]

def dopts(it, o, nb=None):
    a = []
    if nb is not None:
        a += [I32(D_NB), nb]
    if o.get("m"):
        a += [I32(D_MAP), o.get("mh") or C.c_void_p(it.H(o["m"]))]
    if o.get("vec"):
        v = uvector(it, o)
        a += [I32(D_VEC), C.cast(v, C.c_void_p)]
    if o.get("dat"):
        a += [I32(D_DATA), C.c_void_p(o["dat"])]
    if o.get("cb"):
        a += [I32(D_CB), it.c_dcb, C.c_void_p(0)]
    return a + [I32(D_END)]

def uvector(it, o):
    """the user's callbacks given for reading"""
    k = it.blobs[o["b"]][1][1] if o.get("b") in it.blobs else ""
    v = o.get("uvec", 0)
    if k in ("tuner", "ftuner", "ttuner") and "dat" in o:
        return interp4.vector(it, k, v)
    return byref(it.tvecs[3 if v & interp4.LOAD else 1])

class Buf:
    """a buffer of exactly n bytes, so that the sanitizer sees any access past its end"""
    def __init__(self, n, data=None):
        self.n = n
        self.p = libc.malloc(n)
        C.memset(self.p, 0xa5, n)
        if data is not None:
            C.memmove(self.p, data, n)
    def bytes(self):
        return C.string_at(self.p, self.n)
    def free(self):
        libc.free(self.p)

def ser_size(it, h, cb=0):
    n = C.c_size_t(0)
    rc = it.l.object_serialize(C.c_void_p(h), I32(0), I32(SIZE), byref(n), *sopts(it, cb))
    return rc, n.value

def ser_mem(it, h, n, cb=0):
    b = Buf(n)
    rc = it.l.object_serialize(C.c_void_p(h), I32(0), I32(MEM), C.c_size_t(n), C.c_void_p(b.p), *sopts(it, cb))
    d = b.bytes()
    b.free()
    return rc, d

def tmpfile():
    fd, p = tempfile.mkstemp(prefix="vp", dir=os.environ.get("VP_SCRATCH") or None)
    os.close(fd)
    return p

def ser_file(it, h, cb=0):
    p = tmpfile()
    try:
        with open(p, "wb") as f:
            f.write(b"\xff" * 7)
        rc = it.l.object_serialize(C.c_void_p(h), I32(0), I32(FILE), C.c_char_p(p.encode()), *sopts(it, cb))
        return rc, open(p, "rb").read()
    finally:
        os.unlink(p)

def ser_fd(it, h, cb=0):
    p = tmpfile()
    fd = os.open(p, os.O_RDWR)
    try:
        rc = it.l.object_serialize(C.c_void_p(h), I32(0), I32(FD), C.c_int(fd), *sopts(it, cb))
        return rc, open(p, "rb").read()
    finally:
        os.close(fd)
        os.unlink(p)

def de_mem(it, data, o):
    r = C.c_void_p(SENT)
    b = Buf(len(data), data)
    rc = it.l.object_deserialize(byref(r), I32(0), I32(MEM), C.c_size_t(len(data)), C.c_void_p(b.p), *dopts(it, o))
    C.memset(b.p, 0x7e, b.n)
    b.free()
    return rc, r.value

def de_file(it, data, o):
    r = C.c_void_p(SENT)
    p = tmpfile()
    try:
        with open(p, "wb") as f:
            f.write(data)
        rc = it.l.object_deserialize(byref(r), I32(0), I32(FILE), C.c_char_p(p.encode()), *dopts(it, o))
    finally:
        os.unlink(p)
    return rc, r.value

def de_fd(it, data, o):
    r = C.c_void_p(SENT)
    p = tmpfile()
    with open(p, "wb") as f:
        f.write(data)
    fd = os.open(p, os.O_RDONLY)
    try:
        rc = it.l.object_deserialize(byref(r), I32(0), I32(FD), C.c_int(fd), *dopts(it, o))
    finally:
        os.close(fd)
        os.unlink(p)
    return rc, r.value
DE = {"mem": de_mem, "file": de_file, "fd": de_fd}

# ---- shapes ----------------------------------------------------------------
def okay(rc):
    if rc:
        raise Skip("rc %d" % rc)

def lst(f, ty=C.c_void_p):
    n = C.c_size_t(0)
    okay(f(0, None, byref(n)))
    a = (ty * max(1, n.value))()
    if n.value:
        okay(f(n.value, a, None))
    return [a[i] for i in range(n.value)]

def get(f, *a):
    r = C.c_void_p(0)
    okay(f(*a, byref(r)))
    return r.value

KIDS = {}
def kids(it, h):
    """what an object is written with, through the getters; None for absent ones"""
    l = it.l
    t = C.c_int32(-1)
    okay(l.object_get_type(h, byref(t)))
    k = OT[t.value]
    if k == "dist":
        okay(l.distribution_get_type(h, byref(t)))
        if t.value == 3:
            return lst(lambda n, a, m: l.mixture_distribution_get_distributions(h, n, a, m))
        if t.value == 4:
            return lst(lambda n, a, m: l.multivariate_distribution_get_distributions(h, n, a, m))
        return []
    if k == "expr":
        return lst(lambda n, a, m: l.expression_get_nodes(h, n, a, m))
    if k in ("cs", "fs", "os"):
        ps = lst(lambda n, a, m: l.context_get_parameters(h, n, a, m))
        if k == "fs":
            return ps
        if k == "os":
            n = C.c_size_t(0)
            okay(l.objective_space_get_objectives(h, 0, None, None, byref(n)))
            a, b = (C.c_void_p * (n.value + 1))(), (C.c_int32 * (n.value + 1))()
            if n.value:
                okay(l.objective_space_get_objectives(h, n.value, a, b, None))
            return ps + [a[i] for i in range(n.value)]
        ds = []
        for i in range(len(ps)):
            d, ix = C.c_void_p(0), C.c_size_t(0)
            okay(l.configuration_space_get_parameter_distribution(h, i, byref(d), byref(ix)))
            if ix.value == 0:
                ds.append(d.value)
        cs = [get(l.configuration_space_get_condition, h, i) for i in range(len(ps))]
        fo = lst(lambda n, a, m: l.configuration_space_get_forbidden_clauses(h, n, a, m))
        return [get(l.configuration_space_get_rng, h)] + ps + cs + ds + fo
    if k in ("eval", "feval", "teval"):
        f = {"eval": l.evaluation_get_configuration, "feval": l.features_evaluation_get_configuration,
             "teval": l.tree_evaluation_get_configuration}[k]
        r = [get(f, h)]
        return r + [get(l.features_evaluation_get_features, h)] if k == "feval" else r
    if k == "tree":
        return lst(lambda n, a, m: l.tree_get_children(h, n, a, m))
    if k == "tspace":
        return [get(l.tree_space_get_rng, h), get(l.tree_space_get_tree, h)]
    if k == "tuner":
        return [get(l.tuner_get_configuration_space, h), get(l.tuner_get_objective_space, h)] + \
            lst(lambda n, a, m: l.tuner_get_history(h, n, a, m))
    if k == "ftuner":
        return [get(l.features_tuner_get_configuration_space, h), get(l.features_tuner_get_features_space, h),
                get(l.features_tuner_get_objective_space, h)] + \
            lst(lambda n, a, m: l.features_tuner_get_history(h, None, n, a, m))
    if k == "ttuner":
        return [get(l.tree_tuner_get_tree_space, h), get(l.tree_tuner_get_objective_space, h)] + \
            lst(lambda n, a, m: l.tree_tuner_get_history(h, n, a, m))
    return []

def skeleton(it, h):
    """[slot, kind, dyn, children]; children not known to the user are None"""
    s = it.S(h)
    return [s, it.k[s], it.tsdyn.get(s, 0) if it.k[s] == "tspace" else 0,
            [skeleton(it, c) if c and it.S(c) > 0 else (None if c else 0) for c in kids(it, h)]]

def register(it, sk, h, base, used, root=True):
    """registers the copy h of what skeleton sk describes; its node"""
    s = base + sk[0] % 100000
    while s in it.h or s in used or s in it.ever:
        it.dupn += 1
        s = base + 50000 + it.dupn
    used.add(s)
    it.reg(s, h, sk[1], 1 if root else 0)
    if sk[1] == "tspace":
        it.tsdyn[s] = sk[2]
        it.tsh[h] = s
    if h in it.ut:
        it.uth[h] = s
    it.uq += 1
    try:
        ks = kids(it, h)
    finally:
        it.uq -= 1
    if len(ks) != len(sk[3]):
        raise Skip("shape")
    out = []
    for c, k in zip(ks, sk[3]):
        if (not c) != (k == 0):
            raise Skip("shape")
        if k:
            out.append(register(it, k, c, base, used, False))
    return [s, out]

READS = {"param": [("pinfo", "p")], "expr": [("einfo", "e")], "dist": [("dinfo", "s")],
         "cs": [("ctxdump", "s"), ("csdump", "s"), ("csgetrng", "s")], "fs": [("ctxdump", "s")],
         "os": [("ctxdump", "s"), ("osdump", "s")], "conf": [("binfo", "b"), ("bvals", "b"), ("bcheck", "b")],
         "feat": [("binfo", "b"), ("bvals", "b")], "eval": [("binfo", "b"), ("bvals", "b"), ("evobj", "b")],
         "feval": [("binfo", "b"), ("bvals", "b"), ("evobj", "b")], "teval": [("binfo", "b"), ("bvals", "b"), ("evobj", "b")],
         "map": [("mdump", "m")], "tree": [("tinfo", "s")], "tspace": [("tsinfo", "s"), ("csgetrng", "s")],
         "tconf": [("tcinfo", "b")], "tuner": [("tuinfo", "s"), ("tuhist", "s"), ("tuopt", "s")],
         "ftuner": [("tuinfo", "s"), ("tuhist", "s"), ("tuopt", "s")],
         "ttuner": [("tuinfo", "s"), ("tuhist", "s"), ("tuopt", "s")], "rng": []}

def reads(it, nd):
    s = nd[0]
    for a, f in READS[it.k[s]]:
        if it.h[s] in it.ut and a in ("tuhist", "tuopt"):
            it.todo.append({"a": "ulist", "w": a[2:], "s": s, "n": 40, "ret": 1})
        else:
            it.todo.append({"a": a, f: s})
    it.todo.append({"a": "otype", "s": s})
    it.todo.append({"a": "gud", "s": s})
    for k in nd[1]:
        reads(it, k)

# ---- operations ------------------------------------------------------------
def op_ser(it, o):
    """writes the object in all four ways; they must agree"""
    with interp4.calls(it, o):
        return ser_all(it, o)

def ser_all(it, o):
    h = it.H(o["s"])
    cb = o["cb"]
    rc, n = ser_size(it, h, cb)
    if rc:
        return rc, 0
    rc, d = ser_mem(it, h, n, cb)
    if rc:
        return rc, 0
    rc, d2 = ser_file(it, h, cb)
    if rc:
        return rc, 0
    rc, d3 = ser_fd(it, h, cb)
    if rc:
        return rc, 0
    sz = int.from_bytes(d[4:12], "little")
    b = Buf(n + 5)
    rc = it.l.object_serialize(C.c_void_p(h), I32(0), I32(MEM), C.c_size_t(n + 5), C.c_void_p(b.p), *sopts(it, cb))
    d4 = b.bytes()
    b.free()
    if rc:
        return rc, 0
    it.blobs[o["b"]] = (d, skeleton(it, h))
    it.extra["n"] = n
    return 0, [1 if d2 == d else 0, 1 if d3 == d else 0, 1 if d4 == d + b"\xa5" * 5 else 0, 1 if sz == n else 0]

def op_scb(it, o):
    return it.l.object_set_serialize_callback(C.c_void_p(it.H(o["s"])), it.c_scb, C.c_void_p(o["v"])), 0

def op_deser(it, o):
    if o["b"] not in it.blobs:
        raise Drop()
    d, sk = it.blobs[o["b"]]
    it.nb, it.mat = None, []
    with interp4.calls(it, o):
        rc, h = DE[o["form"]](it, d, o)
    it.dels = [x for x in it.dels if x != -1]
    if rc:
        it.extra["udel"] = it.udel
        interp4.report(it)
        return rc, 0 if h == SENT else -1
    ucb = it.ucb
    nd = register(it, sk, h, o["base"], set())
    it.ucb = ucb
    interp4.report(it)
    it.extra["udel"] = it.udel
    if o.get("read", 1):
        reads(it, nd)
    return 0, nd

def op_twin(it, o):
    """the two objects give the same random values"""
    x, y = it.H(o["x"]), it.H(o["y"])
    k = it.k[o["x"]]
    return 0, 1 if draw(it, k, x, o["n"]) == draw(it, k, y, o["n"]) else 0

def draw(it, k, h, n):
    l = it.l
    it.nb, it.mat = None, []
    if k == "rng":
        out = []
        for _ in range(n):
            v = C.c_ulong(0)
            out.append((l.rng_get(h, byref(v)), v.value))
        return out
    if k == "dist":
        raise Drop()
    a = (C.c_void_p * n)()
    f = {"cs": l.configuration_space_samples, "tspace": l.tree_space_samples}[k]
    rc = f(h, n, a)
    if rc:
        return rc
    out = []
    for i in range(n):
        if k == "cs":
            m = C.c_size_t(0)
            l.binding_get_values(a[i], 0, None, byref(m))
            d = it.darr(m.value)
            l.binding_get_values(a[i], m.value, d, None)
            out.append([(d[j].t, C.string_at(d[j].v) if d[j].t == TS else d[j].v) for j in range(m.value)])
        else:
            m = C.c_size_t(0)
            l.tree_configuration_get_position(a[i], 0, None, byref(m))
            d = (C.c_size_t * max(1, m.value))()
            if m.value:
                l.tree_configuration_get_position(a[i], m.value, d, None)
            out.append(list(d)[:m.value])
        l.release_object(a[i])
    return out

def cuts(n, o):
    if n <= o.get("max", 400):
        return range(n)
    import random
    e = min(60, o.get("max", 400) // 3)
    r = random.Random(o.get("seed", 0))
    return sorted(set(list(range(0, e)) + list(range(n - e, n)) + r.sample(range(n), o.get("max", 400) - 2 * e)))

class Scratch:
    """a copy of the user's handle map, so that what a failed call may have added goes away with it"""
    def __init__(self, it, m):
        self.it, self.map = it, C.c_void_p(0)
        it.l.create_map(byref(self.map))
        self.n, self.k, self.v = self.pairs(m)
        for i in range(self.n):
            okay(it.l.map_set(self.map, self.k[i], self.v[i]))
    def pairs(self, m):
        n = C.c_size_t(0)
        okay(self.it.l.map_get_pairs(m, 0, None, None, byref(n)))
        k, v = self.it.darr(n.value), self.it.darr(n.value)
        if n.value:
            okay(self.it.l.map_get_pairs(m, n.value, k, v, None))
        return n.value, k, v
    def kept(self):
        n, k, v = self.pairs(self.map)
        f = lambda d: (d.t, C.string_at(d.v) if d.t == TS else d.v)
        now = {f(k[i]): f(v[i]) for i in range(n)}
        return all(now.get(f(self.k[i])) == f(self.v[i]) for i in range(self.n))

def refused(it, f, d, o):
    """[] if reading d fails and leaves nothing behind; parameters keep the strings they have
    seen, so that only what is left each time is left behind"""
    return refused1(it, f, d, o) and refused1(it, f, d, o)

def refused1(it, f, d, o):
    live = it.l.L.vp_get_live()
    if o.get("m"):
        sc = Scratch(it, it.H(o["m"]))
        x = dict(o, mh=sc.map)
    else:
        sc, x = None, o
    rc, h = f(it, d, x)
    ok = 1
    if sc:
        ok = 1 if sc.kept() else 0
        it.l.release_object(sc.map)
    it.l.clear_thread_error()
    if rc >= 0 or h != SENT or not ok or it.l.L.vp_get_live() != live:
        return [rc, 0 if h == SENT else 1, ok, it.l.L.vp_get_live() - live]
    return []

def op_trunc(it, o):
    """every proper prefix is refused, leaving nothing behind"""
    if o["b"] not in it.blobs:
        raise Drop()
    d = it.blobs[o["b"]][0]
    bad = []
    f = DE[o["form"]]
    it.nb, it.mat = None, []
    for n in cuts(len(d), o):
        b = refused(it, f, d[:n], o)
        if b:
            bad.append([n] + b)
            if b[0] == 0 or len(bad) > 3:
                break
    it.dels = []
    return 0, bad

def op_small(it, o):
    """writing in less than the announced size is refused"""
    h = it.H(o["s"])
    cb = o["cb"]
    rc, n = ser_size(it, h, cb)
    if rc:
        return rc, 0
    bad = []
    for k in cuts(n, o):
        rc, d = ser_mem(it, h, k, cb)
        if rc != -23:
            bad.append([k, rc])
            if len(bad) > 3:
                break
    it.l.clear_thread_error()
    return 0, bad

def op_damage(it, o):
    """a stream that does not start as it should is refused"""
    if o["b"] not in it.blobs:
        raise Drop()
    d = it.blobs[o["b"]][0]
    bad = []
    it.nb, it.mat = None, []
    f = DE[o["form"]]
    for pos, vals in [(0, None), (1, None), (2, None), (3, None), (12, [0x42, 0x7f]), (13, [0x15, 0x7f, 0x40])]:
        for v in ([x for x in (0, 1, 0x42, 0xff) if x != d[pos]] if vals is None else vals):
            x = bytearray(d)
            x[pos] = v
            b = refused(it, f, bytes(x), o)
            if b:
                bad.append([pos, v] + b)
    it.dels = []
    return 0, bad[:4]

# ---- descriptors -----------------------------------------------------------
class Stream:
    """a descriptor and the operation under way on it"""
    def __init__(self, data, bs):
        self.path = tmpfile()
        with open(self.path, "wb") as f:
            f.write(data)
        self.fd = os.open(self.path, os.O_RDWR)
        self.bs = list(bs)
        self.state = C.c_void_p(0)
        self.b = 0              # what is being written
        self.start = 0
        self.end = 0
        self.bad = 0
    def close(self):
        os.close(self.fd)
        os.unlink(self.path)

def op_fdopen(it, o):
    if any(b not in it.blobs for b in o["qb"]):
        raise Drop()
    d = b"".join(it.blobs[b][0] for b in o["qb"]) + b"CCS!" * o.get("tail", 0)
    if o["cut"] >= 0:
        d = d[:o["cut"]]
    it.fds[o["q"]] = Stream(d, o["qb"])
    return 0, 0

def stream(it, o):
    q = it.fds.get(o["q"])
    if q is None or q.bad or o.get("cont") and not q.state.value:
        raise Drop()
    return q

def script(it, q, io):
    a = (C.c_long * (len(io) + 1))(*io)
    it.l.L.vp_io_script(q.fd, a, len(io))

def logged(it, q):
    a = (C.c_long * 65536)()
    n = it.l.L.vp_io_log(a, 65536)
    it.l.L.vp_io_script(-1, a, 0)
    it.extra["log"] = list(a[:min(n, 65536)])
    it.extra["idle"] = 0 if q.state.value else 1

def op_fdput(it, o):
    q = stream(it, o)
    if not q.b:
        if o["b"] not in it.blobs or o["s"] not in it.h:
            raise Drop()
        q.b, q.start = o["b"], q.end
    elif o["s"] not in it.h:
        raise Drop()
    script(it, q, o["io"])
    rc = it.l.object_serialize(C.c_void_p(it.H(o["s"])), I32(0), I32(FD), C.c_int(q.fd),
                               *sopts(it, o["cb"], byref(q.state) if o["nb"] else None))
    logged(it, q)
    d = open(q.path, "rb").read()
    q.end = len(d)
    k = q.end - q.start
    same = d[q.start:] == it.blobs[q.b][0][:k]
    it.extra["b"] = q.b
    if rc <= 0:
        q.b = 0
        q.bad = rc < 0
    return rc, [k, 1 if same else 0]

def op_fdget(it, o):
    q = stream(it, o)
    if not q.bs:
        raise Drop()
    b = q.bs[0]
    sk = it.blobs[b][1]
    it.nb, it.mat = None, []
    r = C.c_void_p(SENT)
    script(it, q, o["io"])
    rc = it.l.object_deserialize(byref(r), I32(0), I32(FD), C.c_int(q.fd), *dopts(it, o, byref(q.state) if o["nb"] else None))
    logged(it, q)
    it.extra["b"] = b
    it.dels = [x for x in it.dels if x != -1]
    if rc:
        q.bad = rc < 0
        return rc, 0 if r.value == SENT else -1
    q.bs.pop(0)
    nd = register(it, sk, r.value, o["base"], set())
    if o.get("read", 1):
        reads(it, nd)
    return 0, nd

def op_fdwrong(it, o):
    """resuming on another descriptor is refused"""
    q = stream(it, o)
    if not q.state.value:
        raise Drop()
    p = tmpfile()
    fd = os.open(p, os.O_RDWR)
    try:
        if q.b:
            rc = it.l.object_serialize(C.c_void_p(it.H(o["s"])), I32(0), I32(FD), C.c_int(fd), *sopts(it, 0, byref(q.state)))
        else:
            r = C.c_void_p(SENT)
            rc = it.l.object_deserialize(byref(r), I32(0), I32(FD), C.c_int(fd), *dopts(it, o, byref(q.state)))
        return rc, [os.fstat(fd).st_size, 1 if q.state.value else 0]
    finally:
        os.close(fd)
        os.unlink(p)
