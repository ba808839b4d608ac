"""Operations on distributions, intervals, maps, trees, tree spaces and tuners (see interp.py)."""
import ctypes as C, json
from ccs import *
from interp import Skip, Drop

byref = C.byref
DKINDS = ["uni", "nor", "rou", "mix", "mul"]
GUARD = 0x5a5a5a5a5a5a5a5a
GETCHILD = C.CFUNCTYPE(C.c_int32, C.c_void_p, C.c_void_p, C.c_size_t, C.POINTER(C.c_void_p))
DELCB = C.CFUNCTYPE(C.c_int32, C.c_void_p)

class TSVec(C.Structure):
    _fields_ = [("del_", C.c_void_p), ("get_child", C.c_void_p), ("ser", C.c_void_p), ("des", C.c_void_p)]

def first(rcs):
    return next((r for r in rcs if r), 0)

# ---- distributions ---------------------------------------------------------
def fl(v):
    return emb_f(v[1], v[2])

def op_mkdist(it, o):
    l = it.l
    d = C.c_void_p(0)
    k = o["k"]
    if k in ("uni", "nor"):
        dt = {"i": 1, "f": 2}.get(o["dt"], 0)
        typed = o.get("g")          # the type specific constructors
        if k == "uni":
            if typed and dt == 1:
                rc = l.create_uniform_int_distribution(it.num(o["lo"]), it.num(o["hi"]), o["sc"], it.num(o["q"]), byref(d))
            elif typed and dt == 2:
                rc = l.create_uniform_float_distribution(fl(o["lo"]), fl(o["hi"]), o["sc"], fl(o["q"]), byref(d))
            else:
                rc = l.create_uniform_distribution(dt, it.num(o["lo"]), it.num(o["hi"]), o["sc"], it.num(o["q"]), byref(d))
        else:
            if typed and dt == 1:
                rc = l.create_normal_int_distribution(v2mu(o["mu"]), fl(o["sigma"]), o["sc"], it.num(o["q"]), byref(d))
            elif typed and dt == 2:
                rc = l.create_normal_float_distribution(v2mu(o["mu"]), fl(o["sigma"]), o["sc"], fl(o["q"]), byref(d))
            else:
                rc = l.create_normal_distribution(dt, v2mu(o["mu"]), fl(o["sigma"]), o["sc"], it.num(o["q"]), byref(d))
    elif k == "rou":
        ws = o["ws"]
        rc = l.create_roulette_distribution(len(ws), it.own((C.c_double * max(1, len(ws)))(*[fl(w) for w in ws])), byref(d))
    elif k == "mix":
        ws = o["ws"]
        rc = l.create_mixture_distribution(len(o["ds"]), it.handles(o["ds"]),
                                           it.own((C.c_double * max(1, len(ws)))(*[fl(w) for w in ws])), byref(d))
    else:
        rc = l.create_multivariate_distribution(len(o["ds"]), it.handles(o["ds"]), byref(d))
    if rc == 0:
        it.reg(o["d"], d, "dist")
    return rc, 0

def op_dinfo(it, o):
    l = it.l
    h = it.H(o["s"])
    t = C.c_int32(-1)
    n = C.c_size_t(99)
    rc = l.distribution_get_type(h, byref(t)) or l.distribution_get_dimension(h, byref(n))
    if rc:
        return rc, 0
    n = n.value
    dts = (C.c_int32 * (n + 1))(*([9] * (n + 1)))
    ivs = (Interval * (n + 1))()
    ivs[n].lo = GUARD
    rc = l.distribution_get_data_types(h, dts) or l.distribution_get_bounds(h, ivs)
    if rc:
        return rc, 0
    if dts[n] != 9 or ivs[n].lo != GUARD:
        return -105, 0
    k = DKINDS[t.value]
    ws = []
    if k in ("uni", "nor"):
        sc = C.c_int32(9)
        q = C.c_int64(0)
        if k == "uni":
            a, b = C.c_int64(0), C.c_int64(0)
            rc = l.uniform_distribution_get_properties(h, byref(a), byref(b), byref(sc), byref(q))
            x = [it.dec(Datum(v.value, dts[0], 0)) for v in (a, b)]
        else:
            a, b = C.c_double(0), C.c_double(0)
            rc = l.normal_distribution_get_properties(h, byref(a), byref(b), byref(sc), byref(q))
            x = [mu2v(a.value), f2v(b.value)]
        props = x + [sc.value, it.dec(Datum(q.value, dts[0], 0))]
    elif k == "rou":
        m = C.c_size_t(99)
        rc = l.roulette_distribution_get_num_areas(h, byref(m))
        if rc:
            return rc, 0
        wa = (C.c_double * (m.value + 1))()
        wa[m.value] = 7
        rc = l.roulette_distribution_get_areas(h, m.value + 1, wa, None)
        if wa[m.value] != 0:
            return -105, 0
        ws = [int(round(wa[i] * 4096)) for i in range(m.value)]
        props = [m.value]
    else:
        pre = "mixture_distribution_" if k == "mix" else "multivariate_distribution_"
        m = C.c_size_t(99)
        rc = getattr(l, pre + "get_num_distributions")(h, byref(m))
        if rc:
            return rc, 0
        ha = (C.c_void_p * (m.value + 1))(*([1] * (m.value + 1)))
        m2 = C.c_size_t(99)
        rc = getattr(l, pre + "get_distributions")(h, m.value + 1, ha, byref(m2))
        if rc:
            return rc, 0
        if m2.value != m.value or ha[m.value]:
            return -105, 0
        props = [it.S(ha[i]) for i in range(m.value)]
        if k == "mix":
            wa = (C.c_double * (m.value + 1))()
            wa[m.value] = 7
            rc = l.mixture_distribution_get_weights(h, m.value + 1, wa, None)
            if wa[m.value] != 0:
                return -105, 0
            ws = [int(round(wa[i] * 4096)) for i in range(m.value)]
    if rc:
        return rc, 0
    return 0, [[k, n, ["?if"[dts[i]] for i in range(n)], [it.ivl(ivs[i]) for i in range(n)], props], ws]

def mkiv(it, x):
    return Interval({"i": 1, "f": 2}[x[0][0]], it.num(x[0]), it.num(x[1]), x[2], x[3])

def op_dover(it, o):
    n = len(o["iv"])
    a = (Interval * max(1, n))(*[mkiv(it, x) for x in o["iv"]])
    r = (C.c_int32 * (n + 1))(*([7] * (n + 1)))
    rc = it.l.distribution_check_oversampling(it.H(o["s"]), a, r)
    if r[n] != 7:
        return -105, 0
    return rc, list(r)[:n] if rc == 0 else 0

def dim_types(it, h):
    n = C.c_size_t(0)
    it.l.distribution_get_dimension(h, byref(n))
    a = (C.c_int32 * max(1, n.value))()
    it.l.distribution_get_data_types(h, a)
    return n.value, list(a)[:n.value]

def op_dsamp(it, o):
    h, r = it.H(o["s"]), it.H(o["r"])
    l = it.l
    dim, ts = dim_types(it, h)
    n = o["n"]
    form = o["form"]
    dec = lambda v, j: it.dec(Datum(v, ts[j], 0))
    if form == "one":
        a = (C.c_int64 * (dim + 1))(*([GUARD] * (dim + 1)))
        out = []
        for _ in range(n):
            rc = l.distribution_sample(h, r, a)
            if rc:
                return rc, 0
            out.append([dec(a[j], j) for j in range(dim)])
        return (0 if a[dim] == GUARD else -105), out
    if form == "many":
        a = (C.c_int64 * (n * dim + 1))(*([GUARD] * (n * dim + 1)))
        rc = l.distribution_samples(h, r, n, a)
        if a[n * dim] != GUARD:
            return -105, 0
        return rc, [[dec(a[i * dim + j], j) for j in range(dim)] for i in range(n)] if rc == 0 else 0
    if form == "str":
        st = o["stride"]
        m = n * max(st, dim) + 1
        a = (C.c_int64 * m)(*([GUARD] * m))
        rc = l.distribution_strided_samples(h, r, n, st, a)
        if rc:
            return rc, 0
        for i in range(m):
            if (i % st >= dim or i // st >= n) and a[i] != GUARD:
                return -105, 0
        return 0, [[dec(a[i * st + j], j) for j in range(dim)] for i in range(n)]
    skip = o.get("skip", [])
    arrs = [(C.c_int64 * (n + 1))(*([GUARD] * (n + 1))) for _ in range(dim)]
    pa = (C.c_void_p * max(1, dim))()
    for j in range(dim):
        pa[j] = None if j in skip else C.addressof(arrs[j])
    rc = l.distribution_soa_samples(h, r, n, pa)
    if rc:
        return rc, 0
    for j in range(dim):
        if arrs[j][n] != GUARD or j in skip and any(arrs[j][i] != GUARD for i in range(n)):
            return -105, 0
    return 0, [[["?"] if j in skip else dec(arrs[j][i], j) for j in range(dim)] for i in range(n)]

def op_dcover(it, o):
    h, r = it.H(o["s"]), it.H(o["r"])
    dim, ts = dim_types(it, h)
    N = o.get("m", 4000)
    a = (C.c_int64 * (N * dim))()
    rc = it.l.distribution_samples(h, r, N, a)
    if rc:
        return rc, 0
    vs = sorted(set(a[i * dim] for i in range(N)))
    return 0, [it.dec(Datum(v, ts[0], 0)) for v in vs]

def op_psamp(it, o):
    n = o["n"]
    a = it.darr(n + 1)
    h, d, r = it.H(o["p"]), it.H(o["s"]), it.H(o["r"])
    if o.get("one"):
        out = []
        for _ in range(n):
            rc = it.l.parameter_sample(h, d, r, a)
            if rc:
                return rc, 0
            out.append([it.dec(a[0])])
        return 0, out
    rc = it.l.parameter_samples(h, d, r, n, a)
    if a[n].t != 77:
        return -105, 0
    return rc, [[it.dec(a[i])] for i in range(n)] if rc == 0 else 0

def op_dpsamp(it, o):
    n, ps = o["n"], o["ps"]
    dim = len(ps)
    a = it.darr(n * dim + 1)
    d, r = it.H(o["s"]), it.H(o["r"])
    pa = it.handles(ps)
    if o.get("one"):
        out = []
        for _ in range(n):
            rc = it.l.distribution_parameters_sample(d, r, pa, a)
            if rc:
                return rc, 0
            out.append([it.dec(a[j]) for j in range(dim)])
        return 0, out
    rc = it.l.distribution_parameters_samples(d, r, pa, n, a)
    if a[n * dim].t != 77:
        return -105, 0
    return rc, [[it.dec(a[i * dim + j]) for j in range(dim)] for i in range(n)] if rc == 0 else 0

def op_pdefd(it, o):
    d = C.c_void_p(0)
    rc = it.l.parameter_get_default_distribution(it.H(o["p"]), byref(d))
    if rc == 0:
        it.reg(o["d"], d, "dist")
    return rc, 0

def op_pconv(it, o):
    n = len(o["vs"])
    a = it.darr(n + 1)
    vals = (C.c_int64 * max(1, n))(*[it.num(v) for v in o["vs"]])
    rc = it.l.parameter_convert_samples(it.H(o["p"]), o["ov"], n, vals, a)
    if a[n].t != 77:
        return -105, 0
    return rc, it.decs(a, n) if rc == 0 else 0

# ---- intervals -------------------------------------------------------------
def op_ivempty(it, o):
    r = C.c_int32(7)
    rc = it.l.interval_empty(byref(mkiv(it, o["x"])), byref(r))
    return rc, 1 if r.value == 1 else r.value

def op_ivin(it, o):
    iv = mkiv(it, o["x"])
    return 0, [1 if it.l.interval_include(byref(iv), it.num(v)) else 0 for v in o["vs"]]

def _iv2(it, o, f):
    r = Interval()
    rc = f(byref(mkiv(it, o["x"])), byref(mkiv(it, o["y"])), byref(r))
    return rc, it.ivl(r) if rc == 0 else 0

def op_ivinter(it, o):
    return _iv2(it, o, it.l.interval_intersect)

def op_ivunion(it, o):
    return _iv2(it, o, it.l.interval_union)

def op_iveq(it, o):
    r = C.c_int32(7)
    rc = it.l.interval_equal(byref(mkiv(it, o["x"])), byref(mkiv(it, o["y"])), byref(r))
    return rc, r.value if rc == 0 else 0

# ---- maps ------------------------------------------------------------------
def op_mkmap(it, o):
    m = C.c_void_p(0)
    rc = it.l.create_map(byref(m))
    if rc == 0:
        it.reg(o["d"], m, "map")
    return rc, 0

def op_mset(it, o):
    tr = bool(o.get("tr"))
    k, v = it.enc(o["k"], tr), it.enc(o["v"], tr)
    if o.get("own"):
        # the key (and the value, when it is the same) as the map itself handed it out
        n = C.c_size_t(0)
        it.l.map_get_keys(it.H(o["m"]), 0, None, byref(n))
        a = it.darr(n.value)
        it.l.map_get_keys(it.H(o["m"]), n.value, a, None)
        for i in range(n.value):
            if it.dec(a[i]) == o["k"]:
                k = a[i]
                v = a[i] if o["v"] == o["k"] else v
    rc = it.l.map_set(it.H(o["m"]), k, v)
    it.scribble()
    return rc, 0

def op_mget(it, o):
    d = Datum(0, 77, 0)
    rc = it.l.map_get(it.H(o["m"]), it.enc(o["k"], True), byref(d))
    return rc, it.dec(d) if rc == 0 else 0

def op_mexist(it, o):
    r = C.c_int32(7)
    rc = it.l.map_exist(it.H(o["m"]), it.enc(o["k"], True), byref(r))
    return rc, r.value if rc == 0 else 0

def op_mdel(it, o):
    return it.l.map_del(it.H(o["m"]), it.enc(o["k"], True)), 0

def op_mclear(it, o):
    return it.l.map_clear(it.H(o["m"])), 0

def op_mcap(it, o):
    n = o["n"]
    w = o.get("w", "pairs")
    a, b = it.darr(n + 1), it.darr(n + 1)
    m = C.c_size_t(99)
    h = it.H(o["m"])
    if w == "keys":
        rc = it.l.map_get_keys(h, n, a, byref(m))
    elif w == "values":
        rc = it.l.map_get_values(h, n, a, byref(m))
    else:
        rc = it.l.map_get_pairs(h, n, a, b, byref(m))
    if a[n].t != 77 or b[n].t != 77:
        return -105, 0
    if rc:
        return rc, 0
    ex = sum(1 for i in range(m.value, n) if a[i].t == TN and (w != "pairs" or b[i].t == TN))
    return 0, [m.value, ex]

def op_mdump(it, o):
    h = it.H(o["m"])
    l = it.l
    n = C.c_size_t(99)
    rc = l.map_get_pairs(h, 0, None, None, byref(n))
    n1, n2 = C.c_size_t(98), C.c_size_t(97)
    rc = rc or l.map_get_keys(h, 0, None, byref(n1)) or l.map_get_values(h, 0, None, byref(n2))
    if rc:
        return rc, 0
    if not n.value == n1.value == n2.value:
        return -105, 0
    n = n.value
    ks, vs, pk, pv = (it.darr(n) for _ in range(4))
    if n:
        rc = l.map_get_keys(h, n, ks, None) or l.map_get_values(h, n, vs, None) or l.map_get_pairs(h, n, pk, pv, None)
    if rc:
        return rc, 0
    return 0, [n] + [it.decs(a, n) for a in (ks, vs, pk, pv)]

# ---- trees -----------------------------------------------------------------
def sizes(p):
    return (C.c_size_t * max(1, len(p)))(*p)

def op_mktree(it, o):
    t = C.c_void_p(0)
    rc = it.l.create_tree(o["ar"], it.enc(o["v"], True), byref(t))
    it.scribble()
    if rc == 0:
        it.reg(o["d"], t, "tree")
    return rc, 0

def op_tinfo(it, o):
    l = it.l
    h = it.H(o["s"])
    ar, ix = C.c_size_t(99), C.c_size_t(777)
    v = Datum(0, 77, 0)
    w, b = C.c_double(7), C.c_double(7)
    par = C.c_void_p(0)
    rc = first([l.tree_get_arity(h, byref(ar)), l.tree_get_value(h, byref(v)), l.tree_get_weight(h, byref(w)),
                l.tree_get_bias(h, byref(b)), l.tree_get_parent(h, byref(par), byref(ix))])
    if rc:
        return rc, 0
    n = ar.value
    ch = (C.c_void_p * (n + 1))(*([1] * (n + 1)))
    m = C.c_size_t(99)
    rc = l.tree_get_children(h, n, ch, byref(m))
    if rc:
        return rc, 0
    if m.value != n or ch[n] != 1:
        return -105, 0
    kids = []
    for i in range(n):
        c = C.c_void_p(0)
        rc = l.tree_get_child(h, i, byref(c))
        if rc:
            return rc, 0
        kids.append(it.S(c.value))
    if [it.S(ch[i]) for i in range(n)] != kids:
        return -105, 0
    ps, vn = C.c_size_t(99), C.c_size_t(99)
    rc = l.tree_get_position(h, 0, None, byref(ps)) or l.tree_get_values(h, 0, None, byref(vn))
    if rc:
        return rc, 0
    pa = sizes([99] * ps.value)
    va = it.darr(vn.value)
    rc = (l.tree_get_position(h, ps.value, pa, None) if ps.value else 0) or l.tree_get_values(h, vn.value, va, None)
    if rc:
        return rc, 0
    return 0, [n, it.dec(v), f2v(w.value), f2v(b.value), kids, it.S(par.value), ix.value if par.value else -1,
               list(pa)[:ps.value], it.decs(va, vn.value)]

def op_tset(it, o):
    return it.l.tree_set_child(it.H(o["s"]), o["i"], it.H(o["c"])), 0

def op_tw(it, o):
    return it.l.tree_set_weight(it.H(o["s"]), fl(o["w"])), 0

def op_tb(it, o):
    return it.l.tree_set_bias(it.H(o["s"]), fl(o["w"])), 0

def op_tget(it, o):
    c = C.c_void_p(0)
    rc = it.l.tree_get_child(it.H(o["s"]), o["i"], byref(c))
    return rc, it.S(c.value) if rc == 0 else 0

def op_tcap(it, o):
    n = o["n"]
    h = it.H(o["s"])
    m = C.c_size_t(99)
    if o["f"] == "ch":
        a = (C.c_void_p * (n + 1))(*([1] * (n + 1)))
        rc = it.l.tree_get_children(h, n, a, byref(m))
        return rc, [m.value, [it.S(a[i]) for i in range(n)]] if rc == 0 else 0
    if o["f"] == "pos":
        a = sizes([99] * (n + 1))
        rc = it.l.tree_get_position(h, n, a, byref(m))
        return rc, [m.value, list(a)[:n]] if rc == 0 else 0
    a = it.darr(n)
    rc = it.l.tree_get_values(h, n, a, byref(m))
    return rc, [m.value, it.decs(a, n)] if rc == 0 else 0

def op_tpos(it, o):
    h = it.H(o["s"])
    l = it.l
    p = sizes(o["p"])
    k = len(o["p"])
    v = C.c_int32(7)
    rc = l.tree_position_is_valid(h, k, p, byref(v))
    if rc:
        return rc, 0
    a = it.darr(o["n"] + 1)
    r1 = l.tree_get_values_at_position(h, k, p, o["n"], a)
    if a[o["n"]].t != 77:
        return -105, 0
    t = C.c_void_p(0)
    r2 = l.tree_get_node_at_position(h, k, p, byref(t))
    return 0, [v.value, [r1] if r1 else [0, it.decs(a, o["n"])], [r2] if r2 else [0, it.S(t.value)]]

def op_tsamp(it, o):
    n = o["n"]
    h, r = it.H(o["s"]), it.H(o["r"])
    a = sizes([777] * (n + 1))
    if o.get("one"):
        out = []
        for _ in range(n):
            rc = it.l.tree_sample(h, r, a)
            if rc:
                return rc, 0
            out.append(a[0])
        return 0, out
    rc = it.l.tree_samples(h, r, n, a)
    if a[n] != 777:
        return -105, 0
    return rc, list(a)[:n] if rc == 0 else 0

def op_tfreq(it, o):
    n = o["n"]
    ar = C.c_size_t(0)
    h = it.H(o["s"])
    it.l.tree_get_arity(h, byref(ar))
    a = sizes([777] * n)
    rc = it.l.tree_samples(h, it.H(o["r"]), n, a)
    if rc:
        return rc, 0
    c = [0] * (ar.value + 1)
    for i in range(n):
        if a[i] > ar.value:
            return -105, 0
        c[a[i]] += 1
    return 0, c

# ---- tree spaces -----------------------------------------------------------
def init(it):
    def get_child(space, parent, index, ret):
        return _get_child(it, space, parent, index, ret)
    it.c_get_child = GETCHILD(get_child)
    it.c_tsdel = DELCB(lambda s: _tsdel(it, s))
    it.tvecs = {1: TSVec(C.cast(it.c_tsdel, C.c_void_p), C.cast(it.c_get_child, C.c_void_p), None, None)}
    it.tsdyn = {}
    it.tsh = {}
    it.nb = None

def _tsdel(it, s):
    it.dels.append(it.tsh.pop(s, -1))
    return 0

def _get_child(it, space, parent, index, ret):
    l = it.l
    sp = it.S(space)
    ps = it.S(parent)
    if it.nb is None:
        return -27
    if it.tsdyn.get(sp) == 2 and index % 2 == 1:
        it.mat.append([ps, index, 0])
        return -27
    if it.tsdyn.get(sp) == 4 and index % 2 == 1:
        it.mat.append([ps, index, ps])
        l.retain_object(parent)
        ret[0] = parent
        return 0
    ar = C.c_size_t(0)
    l.tree_get_arity(parent, byref(ar))
    t = C.c_void_p(0)
    rc = l.create_tree(max(0, ar.value - 1), Datum(index, TI, 0), byref(t))
    if rc:
        return rc
    slot = it.nb + len(it.mat)
    it.reg(slot, t, "tree", 0)
    it.mat.append([ps, index, slot])
    ret[0] = t.value
    return 0

class _Mat:
    """runs a call during which children may be built; the callbacks made end in the event"""
    def __init__(self, it, o):
        self.it, self.o = it, o
    def __enter__(self):
        self.it.nb = self.o.get("nb")
        self.it.mat = []
    def __exit__(self, *a):
        self.it.extra["mat"] = self.it.mat
        self.it.nb = None

def op_mktspace(it, o):
    t = C.c_void_p(0)
    if o["dyn"] == 0:
        rc = it.l.create_static_tree_space(it.name(o["name"]), it.H(o["t"]), byref(t))
    else:
        rc = it.l.create_dynamic_tree_space(it.name(o["name"]), it.H(o["t"]),
                                              byref(it.own(TSVec.from_buffer_copy(it.tvecs[3 if o["dyn"] == 3 else 1]))), None, byref(t))
    if rc == 0:
        it.reg(o["d"], t, "tspace")
        it.tsdyn[o["d"]] = o["dyn"]
        it.tsh[t.value] = o["d"]
    return rc, 0

def op_tsinfo(it, o):
    h = it.H(o["s"])
    ty = C.c_int32(9)
    nm = C.c_char_p()
    t = C.c_void_p(0)
    rc = it.l.tree_space_get_type(h, byref(ty)) or it.l.tree_space_get_name(h, byref(nm)) or \
        it.l.tree_space_get_tree(h, byref(t))
    return rc, [ty.value, nm.value.decode(), it.S(t.value)] if rc == 0 else 0

def op_tscheck(it, o):
    r = C.c_int32(7)
    with _Mat(it, o):
        rc = it.l.tree_space_check_position(it.H(o["s"]), len(o["p"]), sizes(o["p"]), byref(r))
    return rc, r.value if rc == 0 else 0

def op_tsvals(it, o):
    n = o.get("n", len(o["p"]) + 1)
    a = it.darr(n + 1)
    with _Mat(it, o):
        rc = it.l.tree_space_get_values_at_position(it.H(o["s"]), len(o["p"]), sizes(o["p"]), n, a)
    if a[n].t != 77:
        return -105, 0
    return rc, it.decs(a, n) if rc == 0 else 0

def op_tsnode(it, o):
    t = C.c_void_p(0)
    with _Mat(it, o):
        rc = it.l.tree_space_get_node_at_position(it.H(o["s"]), len(o["p"]), sizes(o["p"]), byref(t))
    return rc, it.S(t.value) if rc == 0 else 0

def op_mktconf(it, o):
    c = C.c_void_p(0)
    rc = it.l.create_tree_configuration(it.H(o["s"]), len(o["p"]), sizes(o["p"]) if o["p"] else None, byref(c))
    if rc == 0:
        it.reg(o["d"], c, "tconf")
    return rc, 0

def tcpos(it, h):
    n = C.c_size_t(99)
    rc = it.l.tree_configuration_get_position(h, 0, None, byref(n))
    if rc:
        return rc, 0
    a = sizes([99] * n.value)
    rc = it.l.tree_configuration_get_position(h, n.value, a, None) if n.value else 0
    return rc, list(a)[:n.value]

def op_tcinfo(it, o):
    h = it.H(o["b"])
    s = C.c_void_p(0)
    with _Mat(it, o):
        rc = it.l.tree_configuration_get_tree_space(h, byref(s))
        rc2, p = tcpos(it, h)
        n = C.c_size_t(99)
        rc3 = it.l.tree_configuration_get_values(h, 0, None, byref(n))
    rc = rc or rc2 or rc3
    return rc, [it.S(s.value), p, n.value] if rc == 0 else 0

def op_tccap(it, o):
    n = o["n"]
    a = sizes([99] * (n + 1))
    m = C.c_size_t(99)
    with _Mat(it, o):
        rc = it.l.tree_configuration_get_position(it.H(o["b"]), n, a, byref(m))
    if a[n] != 99:
        return -105, 0
    return rc, [m.value, list(a)[:m.value]] if rc == 0 else 0

def op_tccheck(it, o):
    r = C.c_int32(7)
    h = it.H(o["b"])
    with _Mat(it, o):
        if "s" in o:
            rc = it.l.tree_space_check_configuration(it.H(o["s"]), h, byref(r))
        else:
            rc = it.l.tree_configuration_check(h, byref(r))
    return rc, r.value if rc == 0 else 0

def op_tcvals(it, o):
    h = it.H(o["b"])
    with _Mat(it, o):
        if "n" in o:
            n = o["n"]
        else:
            n = len(tcpos(it, h)[1]) + 1
        a = it.darr(n + 1)
        rc = it.l.tree_configuration_get_values(h, n, a, None)
    if a[n].t != 77:
        return -105, 0
    return rc, it.decs(a, n) if rc == 0 else 0

def op_tcnode(it, o):
    t = C.c_void_p(0)
    with _Mat(it, o):
        rc = it.l.tree_configuration_get_node(it.H(o["b"]), byref(t))
    return rc, it.S(t.value) if rc == 0 else 0

def _tconfs(it, rc, a, n, d):
    if rc:
        return rc, [1 for i in range(n) if a[i]]
    out = []
    for i in range(n):
        if not a[i]:
            return -102, 0
        it.reg(d[i], a[i], "tconf")
        r2, p = tcpos(it, a[i])
        if r2:
            return r2, 0
        out.append(p)
    return 0, out

def op_tssample(it, o):
    n = o["n"]
    a = (C.c_void_p * max(1, n))()
    h = it.H(o["s"])
    it.nb, it.mat = None, []
    rc = it.l.tree_space_sample(h, a) if o.get("one") else it.l.tree_space_samples(h, n, a)
    return _tconfs(it, rc, a, n, o["d"])

# ---- tuners ----------------------------------------------------------------
PRE = {"tuner": "tuner_", "ftuner": "features_tuner_", "ttuner": "tree_tuner_"}

def op_mktuner(it, o):
    t = C.c_void_p(0)
    k = o["k"]
    nm = it.name(o["name"])
    if k == "tuner":
        rc = it.l.create_random_tuner(nm, it.H(o["cs"]), it.H(o["os"]), byref(t))
    elif k == "ttuner":
        rc = it.l.create_random_tree_tuner(nm, it.H(o["cs"]), it.H(o["os"]), byref(t))
    else:
        rc = it.l.create_random_features_tuner(nm, it.H(o["cs"]), it.H(o["fs"]), it.H(o["os"]), byref(t))
    if rc == 0:
        it.reg(o["d"], t, k)
    return rc, 0

def tf(it, s, n):
    return getattr(it.l, PRE[it.k[s]] + n)

def op_tuinfo(it, o):
    s = o["s"]
    k = it.k[s]
    h = it.H(s)
    nm = C.c_char_p()
    a, b, c = C.c_void_p(0), C.c_void_p(0), C.c_void_p(0)
    sp = it.l.tree_tuner_get_tree_space if k == "ttuner" else \
        getattr(it.l, PRE[k] + "get_configuration_space")
    rc = tf(it, s, "get_name")(h, byref(nm)) or sp(h, byref(a)) or tf(it, s, "get_objective_space")(h, byref(b))
    out = [k, nm.value.decode() if nm.value else "", it.S(a.value), it.S(b.value)]
    if k == "ftuner":
        rc = rc or it.l.features_tuner_get_features_space(h, byref(c))
        out.append(it.S(c.value))
    return rc, out

def op_tell(it, o):
    es = o["es"]
    return tf(it, o["s"], "tell")(it.H(o["s"]), len(es), it.handles(es)), 0

def _tulist(it, o, name):
    s = o["s"]
    h = it.H(s)
    f0 = tf(it, s, name)
    if it.k[s] == "ftuner":
        ft = it.H(o.get("f", 0))
        f = lambda n, a, m: f0(h, ft, n, a, m)
    else:
        f = lambda n, a, m: f0(h, n, a, m)
    m = C.c_size_t(99)
    if "n" in o:
        n = o["n"]
    else:
        rc = f(0, None, byref(m))
        if rc:
            return rc, 0
        n = m.value
        if n == 0:
            return 0, [0, []]
    a = (C.c_void_p * (n + 1))(*([1] * (n + 1)))
    rc = f(n, a, byref(m))
    if a[n] != 1:
        return -105, 0
    return rc, [m.value, [it.S(a[i]) for i in range(n)]] if rc == 0 else 0

def op_tuhist(it, o):
    return _tulist(it, o, "get_history")

def op_tuopt(it, o):
    return _tulist(it, o, "get_optima")

def confs(it, sp, rc, a, n, d):
    """configurations handed out: registered, described"""
    if rc:
        return rc, [1 for i in range(n) if a[i]]
    out = []
    for i in range(n):
        if not a[i]:
            return -102, 0
        it.reg(d[i], a[i], "conf")
        out.append(centry(it, sp, a[i]))
    return 0, out

def centry(it, sp, c):
    r2, vs = it.bvalues(c)
    s = C.c_void_p(0)
    it.l.configuration_get_configuration_space(c, byref(s))
    ck = C.c_int32(7)
    r3 = it.l.configuration_space_check_configuration(sp, c, byref(ck))
    return [vs if r2 == 0 else [], it.S(s.value), r3, ck.value, 1 if it.offgrid_clash(c) else 0]

def tspace(it, s):
    a = C.c_void_p(0)
    k = it.k[s]
    sp = it.l.tree_tuner_get_tree_space if k == "ttuner" else getattr(it.l, PRE[k] + "get_configuration_space")
    sp(it.H(s), byref(a))
    return a.value

def op_ask(it, o):
    s = o["s"]
    h = it.H(s)
    n = o["n"]
    k = it.k[s]
    f0 = tf(it, s, "ask")
    it.nb, it.mat = None, []
    f = (lambda *x: f0(h, it.H(o.get("f", 0)), *x)) if k == "ftuner" else (lambda *x: f0(h, *x))
    m = C.c_size_t(99)
    if n == 0:
        rc = f(0, None, byref(m))
        return rc, m.value
    a = (C.c_void_p * n)()
    rc = f(n, a, byref(m) if o.get("cnt") else None)
    if rc == 0 and o.get("cnt") and m.value != n:
        return -105, 0
    return _tconfs(it, rc, a, n, o["d"]) if k == "ttuner" else confs(it, tspace(it, s), rc, a, n, o["d"])

def op_suggest(it, o):
    s = o["s"]
    h = it.H(s)
    k = it.k[s]
    f0 = tf(it, s, "suggest")
    it.nb, it.mat = None, []
    c = C.c_void_p(0)
    rc = f0(h, it.H(o.get("f", 0)), byref(c)) if k == "ftuner" else f0(h, byref(c))
    if rc:
        return rc, ([1] if c.value else [])
    if it.S(c.value) > 0:
        sl = it.S(c.value)
        it.uref[sl] = it.uref.get(sl, 0) + 1
        it.never.add(o["d"])
        return 0, ["old", sl]
    if k == "ttuner":
        it.reg(o["d"], c, "tconf")
        r2, p = tcpos(it, c.value)
        return r2, ["new", p]
    it.reg(o["d"], c, "conf")
    return 0, ["new", centry(it, tspace(it, s), c.value)]
