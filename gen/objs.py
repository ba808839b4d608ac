"""Intervals, maps, bindings, evaluations, trees, tree spaces, tuners and object lifetimes."""
from gen.base import *
from gen import space as SP

# ---- intervals -------------------------------------------------------------
IVI = [I(-1000010), I(-1000009), I(-2), I(-1), I(0), I(1), I(2), I(1000009), I(1000010)]
IVF = [F(-FINF), F(-3, 1), F(-1), F(0), F(1, 1), F(1), F(5, 2), F(FINF)]

def all_intervals(pool):
    return [[a, b, l, u] for a in pool for b in pool for l in (0, 1) for u in (0, 1)]

def intervals(seed, pairs=700):
    """every interval over a small pool for emptiness and membership, random pairs for the rest"""
    r = random.Random(seed)
    g = G(seed)
    for pool in (IVI, IVF):
        ivs = all_intervals(pool)
        for _ in range(pairs):
            x = r.choice(ivs)
            y = r.choice(ivs)
            if r.random() < .5:      # share bounds
                y = [r.choice([x[0], y[0], x[1]]), r.choice([x[1], y[1], x[0]]), y[2], y[3]]
            if r.random() < .03:
                y = r.choice(all_intervals([I(0), I(1)] if pool is IVF else [F(0), F(1)]))
            g.op(r.choice(["ivinter", "ivunion", "iveq"]), x=x, y=y)
    return g.end()

def interval_units(seed):
    out = []
    for pool in (IVI, IVF):
        ivs = all_intervals(pool)
        for k in range(0, len(ivs), 40):
            g = G(seed)
            for x in ivs[k:k + 40]:
                g.op("ivempty", x=x)
                g.op("ivin", x=x, vs=pool + ([I(3)] if pool is IVI else [F(1, 2), F(3)]))
            out.append(g.end())
    return out

def interval_pairs(lo, hi, dt):
    """all pairs of intervals with bounds in lo..hi"""
    pool = [I(n) for n in range(lo, hi + 1)] if dt == "i" else [F(n, 1) for n in range(lo, hi + 1)]
    ivs = all_intervals(pool)
    out = []
    for x in ivs:
        g = G(0)
        for y in ivs:
            for a in ("ivinter", "ivunion", "iveq"):
                g.op(a, x=x, y=y)
        out.append(g.end())
    return out

# ---- maps ------------------------------------------------------------------
def maps(seed, n=60):
    g = G(seed)
    objs = [g.rng("0"), g.param("a"), g.expr_("lit", [I(3)], 2), g.uni("i")][:g.r.randrange(1, 5)]
    own = {o: g.ch("o", "oid") for o in objs}
    ms = []
    keys = [NONE, INACT, I(0), I(1), I(-1), F(0), F(1), F(3, 1), Bo(0), Bo(1), S(""), S("a"), S("A"), S("foo"), S("foo2")]

    def datum(obj=.25):
        if g.p(obj):
            o = g.r.choice(objs + ms[1:2])
            return [own.get(o, "o"), o]
        return g.r.choice(keys) if g.p(.8) else g.val("nifbsx")
    ms.append(g.slot())
    g.op("mkmap", d=ms[0])
    g.hold("map", ms[0])
    if g.p(.4):
        ms.append(g.slot())
        g.op("mkmap", d=ms[1])
        g.hold("map", ms[1])
    gone = set()
    used = {m: [] for m in ms}
    for _ in range(n):
        m = ms[0] if g.p(.8) or len(ms) == 1 or ms[1] in gone else ms[1]
        w = g.r.random()

        def key():
            return g.r.choice(used[m]) if used[m] and g.p(.6) else datum()
        k = key()
        if k[0] in ("o", "oid") and k[1] in gone:
            continue
        if w < .45:
            v = datum()
            if k[0] in ("o", "oid") and k[1] == m or v[0] in ("o", "oid") and (v[1] == m or v[1] in gone) or m == (ms + [0])[1] and \
                    (k[0] in ("o", "oid") and k[1] in ms or v[0] in ("o", "oid") and v[1] in ms):
                continue          # a map that holds itself
            if k in used[m] and k[0] == "s" and g.p(.3):
                v = g.ch(k, v, v)
            g.op("mset", m=m, k=k, v=v, tr=g.r.randrange(2), **({"own": 1} if k in used[m] and k[0] != "oid" and g.p(.4) else {}))
            used[m].append(k)
        elif w < .6:
            g.op("mget", m=m, k=k)
        elif w < .68:
            g.op("mexist", m=m, k=k)
        elif w < .82:
            g.op("mdel", m=m, k=k)
        elif w < .84:
            g.op("mclear", m=m)
            used[m] = []
        elif w < .9:
            g.op("mdump", m=m)
        elif w < .95:
            g.op("mcap", m=m, n=g.r.randrange(1, 9), w=g.ch("pairs", "keys", "values"))
        elif w < .98:
            o = g.r.choice(objs + ms[1:])
            if o not in gone and not (o in own and own[o] == "oid"):
                g.op("rel", s=o)      # the map may be what keeps it alive
                gone.add(o)
    for m in ms:
        if m not in gone:
            g.op("mdump", m=m)
    return g.end()

# ---- bindings --------------------------------------------------------------
def mkctx(g, k, n=None, strs=False, names=("a", "b", "c", "d")):
    kinds = ("num", "num", "cat", "ord", "disc") + (("str", "str") if k != "cs" else ())
    ps = [g.param(names[i], kinds=kinds) for i in range(g.r.randrange(1, 4) if n is None else n)]
    return g.ctx(k, ps, each=g.p(.5))

def mkbind(g, k, sp, wrong=.05, inact=.05, **kw):
    b = g.slot()
    ps = g.info[sp]["ps"]
    tr = g.r.randrange(2)
    vals = [g.pvalue(p, wrong, inact) for p in ps]
    w = g.r.random()
    o = dict(d=b, k=k, s=sp, vals=vals, tr=tr)
    o.update(kw)
    if w < .05:
        o["nov"] = 1
        o["vals"] = []
    elif w < .1:
        o["vals"] = vals[:-1] if g.p(.5) and len(vals) > 1 else vals + [NONE]
    g.op("mkbind", **o)
    g.hold(k, b, ctx=sp, vals=o["vals"])
    return b

def access(g, b, k, c, n=4):
    ps = g.info[c]["ps"]
    other = g.any("param")
    for _ in range(n):
        w = g.r.random()
        gen = g.r.randrange(2)
        by = g.ch("i", "n", "p")
        x = {"i": lambda: g.r.randrange(len(ps) + 1), "n": lambda: g.ch("a", "b", "c", "zz"),
             "p": lambda: g.r.choice(ps) if g.p(.8) else g.ch(other, 0)}[by]()
        if w < .3:
            g.op("bget", b=b, by=by, x=x, g=gen)
        elif w < .7:
            p = g.r.choice(ps)
            if by == "i" and x < len(ps):
                p = ps[x]
            elif by == "p" and x in ps:
                p = x
            elif by == "n":
                p = ([q for q in ps if g.info[q].get("name") == x] or ps)[0]
            g.op("bset", b=b, by=by, x=x, v=g.pvalue(p, .1, .05), tr=g.r.randrange(2), g=gen)
        elif w < .8:
            vals = [g.pvalue(p, .06, .05) for p in ps]
            g.op("bsets", b=b, vals=vals + [NONE] if g.p(.1) else vals[:-1] if g.p(.1) else vals, tr=g.r.randrange(2))
        elif w < .9:
            g.op("bcap", b=b, n=g.r.randrange(1, len(ps) + 3), g=gen)
        else:
            g.op("binfo", b=b)
        g.op("bvals", b=b, g=g.r.randrange(2))

def binds(seed):
    g = G(seed)
    cs = [mkctx(g, "cs"), mkctx(g, "cs")]
    fs = mkctx(g, "fs")
    os = mkctx(g, "os")
    tsp = None
    pools = {}
    k = g.ch("conf", "feat", "eval", "feval", "teval")
    for _ in range(g.r.randrange(2, 6)):
        c = g.r.choice(cs)
        b = mkbind(g, "conf", c, 0 if k != "conf" else .05, 0 if k != "conf" else .05)
        pools.setdefault("conf", []).append(b)
    if k in ("feat", "feval"):
        for _ in range(g.r.randrange(2, 5)):
            pools.setdefault("feat", []).append(mkbind(g, "feat", fs, 0, 0))
    if k == "teval":
        t = g.slot()
        g.op("mktree", d=t, ar=2, v=I(0))
        tsp = g.slot()
        g.op("mktspace", d=tsp, name="ts", t=t, dyn=0)
        for _ in range(3):
            c = g.slot()
            g.op("mktconf", d=c, s=tsp, p=g.ch([], [0], [1], [0, 1]))
            pools.setdefault("tconf", []).append(c)
    if k in ("eval", "feval", "teval"):
        for _ in range(g.r.randrange(3, 6)):
            kw = dict(c=g.r.choice(pools["tconf" if k == "teval" else "conf"]), r=g.ch(0, 0, 0, -1, 3))
            if k == "feval":
                kw["f"] = g.r.choice(pools["feat"])
            if g.p(.04):
                kw["c"] = g.ch(0, os)
            pools.setdefault(k, []).append(mkbind(g, k, os, .05, .02, **kw))
    if g.p(.2) and k in ("conf", "feat"):
        mkb = g.slot()
        g.op("mkbind", d=mkb, k=k, s=g.ch(os, 0), vals=[], tr=0)
    bs = pools[k]
    for b in bs:
        c = g.info[b]["ctx"]
        access(g, b, k, c, g.r.randrange(1, 5))
        if g.p(.4):
            g.op("bcheck", b=b)
        if k in ("eval", "feval", "teval") and g.p(.3):
            g.op("evres", b=b, r=g.ch(0, 0, -2, 5))
    # copies, so that equal ones exist
    for b in list(bs)[:3]:
        if g.p(.7):
            i = g.info[b]
            d = g.slot()
            src = next(o for o in g.ops if o["a"] == "mkbind" and o["d"] == b)
            o = dict(src)
            o["d"] = d
            o.pop("a")
            g.op("mkbind", **o)
            g.hold(k, d, ctx=i["ctx"])
            bs.append(d)
    g.op("bcmps", bs=bs, g=g.r.randrange(2))
    g.op("bhashes", bs=bs, g=g.r.randrange(2))
    for _ in range(g.r.randrange(4)):       # made equal, or nearly so, after having been hashed and compared
        x, y = g.r.choice(bs), g.r.choice(bs)
        c = g.info[x]["ctx"]
        if x == y or g.info[y]["ctx"] != c:
            continue
        ps = g.info[c]["ps"]
        for i in range(g.r.randrange(1, 4)):
            vals = [g.pvalue(p) for p in ps]
            g.op("bsets", b=x, vals=vals, tr=g.r.randrange(2))
            if g.p(.6):      # y differs from what it will be in one place
                v2 = list(vals)
                j = g.r.randrange(len(ps))
                v2[j] = g.pvalue(ps[j])
                g.op("bsets", b=y, vals=v2, tr=g.r.randrange(2))
            g.op(g.ch("bhashes", "bcmps"), bs=g.ch([y, x], [x, y]), g=g.r.randrange(2))
            g.op("bsets", b=y, vals=vals, tr=g.r.randrange(2))
            if g.p(.3):
                j = g.r.randrange(len(ps))
                g.op("bset", b=y, by="i", x=j, v=g.pvalue(ps[j]), tr=g.r.randrange(2), g=g.r.randrange(2))
            g.op("bhashes", bs=g.ch([y, x], [x, y]), g=g.r.randrange(2))
            g.op("bcmps", bs=g.ch([y, x], [x, y]), g=g.r.randrange(2))
    for b in bs[:3]:
        if g.p(.5):
            access(g, b, k, g.info[b]["ctx"], 2)
    g.op("bcmps", bs=bs, g=g.r.randrange(2))
    g.op("bhashes", bs=bs, g=g.r.randrange(2))
    return g.end()

def mixed(seed):
    """bindings of several types, compared through the functions of bindings"""
    g = G(seed)
    ps = [g.param("ab"[i], kinds=("num", "disc", "cat")) for i in range(g.r.randrange(1, 3))]
    cs, fs, os = (g.ctx(k, ps) for k in ("cs", "fs", "os"))
    t, tsp = g.slot(), g.slot()
    g.op("mktree", d=t, ar=2, v=I(0))
    g.op("mktspace", d=tsp, name="ts", t=t, dyn=0)
    bs = []
    def mk(k, ctx, **kw):
        vals = list(g.r.choice(sets))
        b = g.slot()
        g.op("mkbind", d=b, k=k, s=ctx, vals=vals, tr=0, **kw)
        g.hold(k, b, ctx=ctx)
        return b
    sets = [[g.pvalue(p, 0, 0) for p in ps] for _ in range(2)]
    cf, ft, tc = [], [], []
    for _ in range(2):
        cf.append(mk("conf", cs))
        ft.append(mk("feat", fs))
        c = g.slot()
        g.op("mktconf", d=c, s=tsp, p=g.ch([], [0]))
        tc.append(c)
    for _ in range(g.r.randrange(3, 8)):
        k = g.ch("eval", "feval", "teval")
        kw = {"c": g.r.choice(tc if k == "teval" else cf), "r": g.ch(0, 0, -1)}
        if k == "feval":
            kw["f"] = g.r.choice(ft)
        bs.append(mk(k, os, **kw))
    bs += g.r.sample(cf + ft, 2)
    g.op("bcmps", bs=bs, g=1)
    g.op("bhashes", bs=bs, g=1)
    for b in bs[:2]:
        if g.p(.6):
            g.op("bsets", b=b, vals=list(g.r.choice(sets)), tr=0)
    g.op("bcmps", bs=bs, g=1)
    g.op("bhashes", bs=bs, g=1)
    return g.end()

# ---- objectives and evaluations --------------------------------------------
def evals(seed, k=None):
    """objective spaces, objective values, comparisons"""
    g = G(seed)
    k = k or g.ch("eval", "eval", "feval", "teval")
    cs = mkctx(g, "cs", 1)
    confs = [mkbind(g, "conf", cs, 0, 0) for _ in range(2)]
    fts = []
    if k == "feval":
        fs = mkctx(g, "fs", 1)
        fts = [mkbind(g, "feat", fs, 0, 0) for _ in range(2)]
    if k == "teval":
        t = g.slot()
        g.op("mktree", d=t, ar=1, v=I(0))
        ts = g.slot()
        g.op("mktspace", d=ts, name="ts", t=t, dyn=0)
        confs = []
        for p in ([], [0]):
            c = g.slot()
            g.op("mktconf", d=c, s=ts, p=p)
            confs.append(c)
    ps = [g.param("abcd"[i], kinds=("num", "num", "num", "disc", "cat", "str")) for i in range(g.r.randrange(1, 4))]
    foreign = g.param("zz")
    os = g.ctx("os", ps)
    nums = [p for p in ps if g.info[p]["pk"] in ("num", "disc")]
    objs = []

    def objective():
        w = g.r.random()
        if w < .6 and nums:
            e = g.as_slot(g.variable(g.r.choice(nums)))
        elif w < .85:
            e = g.as_slot(g.number(nums, g.r.randrange(3)))
        elif w < .95:
            e = g.as_slot(g.variable(g.r.choice(ps)))
        else:
            e = g.as_slot(g.boolean(ps, 1))
        return e
    for _ in range(g.r.randrange(0, 4)):
        n = g.ch(1, 1, 1, 1, 2, 2, 6)
        es = [objective() for _ in range(n)]
        if g.p(.1):
            es.append(g.ch(0, g.as_slot(g.variable(foreign)), objective()))
        ts = [g.r.randrange(2) for _ in es]
        if len(es) == 1 and g.p(.5):
            g.op("osobj", s=os, es=es, ts=ts, one=1)
        else:
            g.op("osobj", s=os, es=es, ts=ts)
        g.op("osdump", s=os)
    bs = []
    for _ in range(g.r.randrange(3, 7)):
        kw = dict(c=g.r.choice(confs), r=g.ch(0, 0, 0, 0, 0, -1))
        if k == "feval":
            kw["f"] = g.r.choice(fts)
        b = g.slot()
        vals = [g.pvalue(p, .02, .02) for p in ps]
        if bs and g.p(.3):
            vals = list(g.info[g.r.choice(bs)]["vals"])
            if g.p(.6):
                j = g.r.randrange(len(ps))
                vals[j] = g.pvalue(ps[j])
        g.op("mkbind", d=b, k=k, s=os, vals=vals, tr=g.r.randrange(2), **kw)
        g.hold(k, b, ctx=os, vals=vals)
        bs.append(b)
    for b in bs:
        g.op("evobj", b=b)
        g.op("evobj", b=b, i=g.r.randrange(4))
        g.op("evobj", b=b, n=g.r.randrange(1, 6))
        if g.p(.2):
            g.op("binfo", b=b)
        if g.p(.1):
            g.op("bcheck", b=b)
    for x in bs:
        for y in bs:
            g.op("evcmp", x=x, y=y)
    for _ in range(g.r.randrange(4)):       # the same questions again, after something has changed
        x, y = g.r.choice(bs), g.r.choice(bs)
        q = g.ch("cmp", "cmp", "obj")
        for i in range(g.r.randrange(2, 5)):
            if q == "cmp":
                g.op("evcmp", x=x, y=y)
            else:
                g.op("evobj", b=x)
            b = g.ch(x, x, y)
            j = g.r.randrange(len(ps))
            w = g.r.random()
            if w < .6:
                g.op("bset", b=b, by="i", x=j, v=g.pvalue(ps[j]), tr=g.r.randrange(2), g=g.r.randrange(2))
            elif w < .8:
                g.op("bsets", b=b, vals=[g.pvalue(p) for p in ps], tr=g.r.randrange(2))
            elif w < .9:
                g.op("evres", b=b, r=g.ch(0, 0, -1))
            else:
                g.op("osobj", s=os, es=[objective()], ts=[g.r.randrange(2)], one=1)
        g.op("evcmp", x=x, y=y)
        g.op("evobj", b=x)
    if g.p(.25):      # another space, grown space
        os2 = g.ctx("os", ps)
        b2 = g.slot()
        kw = dict(c=confs[0], r=0)
        if k == "feval":
            kw["f"] = fts[0]
        g.op("mkbind", d=b2, k=k, s=os2, vals=[g.pvalue(p) for p in ps], tr=0, **kw)
        g.hold(k, b2, ctx=os2)
        g.op("evcmp", x=bs[0], y=b2)
    if g.p(.3):
        p2 = g.num_param("late")
        g.op("ctxadd", s=os, ps=[p2], one=1)
        g.op("osobj", s=os, es=[g.as_slot(g.variable(g.ch(p2, ps[0])))], ts=[0], one=1)
        for b in bs[:2]:
            g.op("evobj", b=b)
            g.op("evobj", b=b, i=g.r.randrange(3))
            g.op("bcheck", b=b)
            g.op("bget", b=b, by="n", x="late", g=1)
            g.op("bget", b=b, by="i", x=len(ps), g=1)
        g.op("evcmp", x=bs[0], y=bs[1])
    g.op("osget", s=os, i=g.r.randrange(4))
    g.op("evres", b=bs[0], r=g.ch(0, 1))
    g.op("evcmp", x=bs[0], y=bs[-1])
    return g.end()

# ---- trees -----------------------------------------------------------------
def weight(g):
    return F(g.ch(0, 1, 1, 1, 2, 3, 5), g.ch(0, 0, 1))

def tree(g, depth, ar=None, build=.7):
    t = g.slot()
    ar = g.r.randrange(0, 4) if ar is None else ar
    g.op("mktree", d=t, ar=ar, v=g.val("nifbs"))
    g.hold("tree", t, ar=ar)
    if g.p(.3):
        g.op("tw", s=t, w=weight(g))
    if g.p(.3):
        g.op("tb", s=t, w=weight(g))
    if depth > 0:
        for i in range(ar):
            if g.p(build):
                c = tree(g, depth - 1)
                g.op("tset", s=t, i=i, c=c)
    return t

def rpos(g, n=4):
    return [g.r.randrange(3) if g.p(.9) else g.r.randrange(6) for _ in range(g.r.randrange(n))]

def trees(seed, n=40):
    g = G(seed)
    r = g.rng(g.ch("script", "0", "1"))
    root = tree(g, g.r.randrange(4))
    for _ in range(g.r.randrange(3)):
        tree(g, 1)
    ts = g.held["tree"]
    for _ in range(n):
        if len(ts) < 2:
            tree(g, 1)
        t = g.r.choice(ts)
        w = g.r.random()
        if w < .15:
            g.op("tset", s=t, i=g.r.randrange(4), c=g.r.choice(ts) if g.p(.95) else 0)
        elif w < .22:
            g.op("tw", s=t, w=weight(g) if g.p(.9) else F(-1))
        elif w < .29:
            g.op("tb", s=t, w=weight(g) if g.p(.9) else F(-1, 1))
        elif w < .42:
            g.op("tinfo", s=t)
        elif w < .5:
            g.op("tget", s=t, i=g.r.randrange(5))
        elif w < .57:
            g.op("tcap", s=t, f=g.ch("ch", "pos", "vals"), n=g.r.randrange(1, 6))
        elif w < .75:
            p = rpos(g)
            g.op("tpos", s=t, p=p, n=g.ch(len(p) + 1, len(p) + 1, len(p) + 3, max(1, len(p))))
        elif w < .87:
            if g.p(.5):
                g.script()
            g.op("tsamp", s=t, r=r, n=g.ch(0, 1, 5, 20), one=g.r.randrange(2))
        elif w < .92:
            tree(g, 1)
        elif w < .97 and len(ts) > 1:
            t = ts.pop(g.r.randrange(len(ts)))
            g.op("rel", s=t)
        elif w < .99:
            g.op("ret", s=t)
            ts.append(t)
    for t in sorted(set(ts)):
        g.op("tinfo", s=t)
    return g.end()

def tfreq(seed, n=4096):
    g = G(seed)
    r = g.rng("0", seed % 1000 + 1)
    t = tree(g, 2, g.r.randrange(1, 4))
    for s in g.held["tree"]:
        g.op("tfreq", s=s, r=r, n=n, tol=int(3.2 * n ** .5))
    for s in g.held["tree"]:
        if g.p(.5):
            g.op("tw", s=s, w=weight(g))
        if g.p(.4):
            g.op("tb", s=s, w=weight(g))
    for s in g.held["tree"]:
        g.op("tfreq", s=s, r=r, n=n, tol=int(3.2 * n ** .5))
    return g.end()

def tspaces(seed, n=40):
    g = G(seed)
    sps = []
    for _ in range(g.ch(1, 1, 2)):
        dyn = g.ch(0, 0, 1, 1, 2, 4)
        t = tree(g, g.r.randrange(3), g.r.randrange(1, 4), .5)
        if g.p(.3):
            inner = [x for x in g.held["tree"] if x != t]
        s = g.slot()
        g.op("mktspace", d=s, name="ts%d" % dyn, t=t, dyn=dyn)
        g.hold("tspace", s, tree=t, dyn=dyn)
        sps.append(s)
        if g.p(.7):
            r = g.rng(g.ch("script", "0", "2"))
            g.op("cssetrng", s=s, r=r)
        if g.p(.3):
            g.op("rel", s=t)
            g.held["tree"].remove(t)
    confs = []
    nb = 10000
    for _ in range(n):
        s = g.r.choice(sps)
        w = g.r.random()
        nb += 20
        if w < .12:
            g.op("tscheck", s=s, p=rpos(g, 5), nb=nb)
        elif w < .26:
            p = rpos(g, 5)
            g.op("tsvals", s=s, p=p, nb=nb, **({} if g.p(.6) else {"n": g.ch(max(1, len(p)), len(p) + 1, len(p) + 3)}))
        elif w < .4:
            g.op("tsnode", s=s, p=rpos(g, 5), nb=nb)
        elif w < .5:
            c = g.slot()
            g.op("mktconf", d=c, s=s, p=rpos(g, 5))
            g.hold("tconf", c, sp=s)
            confs.append(c)
        elif w < .66:
            m = g.ch(1, 1, 2, 4)
            ds = [g.slot() for _ in range(m)]
            if g.p(.6):
                g.script()
            g.op("tssample", s=s, n=m, d=ds, **({"one": 1} if m == 1 and g.p(.5) else {}))
            for d in ds:
                g.hold("tconf", d, sp=s)
                confs.append(d)
        elif w < .9 and confs:
            c = g.r.choice(confs)
            a = g.ch("tcinfo", "tccap", "tccheck", "tccheck", "tcvals", "tcvals", "tcnode", "tcnode")
            kw = {"nb": nb}
            if a == "tccap":
                kw["n"] = g.r.randrange(1, 6)
            elif a == "tccheck" and g.p(.6):
                kw["s"] = g.r.choice(sps)
            elif a == "tcvals" and g.p(.3):
                kw["n"] = g.r.randrange(1, 7)
            g.op(a, b=c, **kw)
        elif w < .93:
            g.op("tsinfo", s=s)
        elif w < .96:
            g.op("csgetrng", s=s)
            g.op("cssetrng", s=s, r=g.ch(g.rng("1"), 0))
        elif w < .98 and g.held.get("tree"):
            x = g.r.choice(g.held["tree"])
            g.op("tw", s=x, w=weight(g))
        elif confs:
            g.op("rel", s=confs.pop(g.r.randrange(len(confs))))
    if len(confs) > 1:
        cs = sorted(set(g.r.sample(confs, min(len(confs), 5))))
        g.op("bcmps", bs=cs, g=0)
        g.op("bhashes", bs=cs, g=0)
    return g.end()

# ---- tuners ----------------------------------------------------------------
def tuners(seed, n=36, part=False):
    g = G(seed)
    k = g.ch("tuner", "tuner", "ftuner", "ttuner")
    fts = []
    kw = {}
    if k == "ttuner":
        t = tree(g, 2, 2)
        cs = g.slot()
        g.op("mktspace", d=cs, name="ts", t=t, dyn=g.ch(0, 0, 1))
        g.hold("tspace", cs)
    else:
        cs = mkctx(g, "cs")
    if g.p(.8):
        r = g.rng(g.ch("script", "0") if not part else "0")
        g.op("cssetrng", s=cs, r=r)
    if k == "ftuner":
        fs = mkctx(g, "fs", g.ch(1, 2))
        fts = [mkbind(g, "feat", fs, .05, 0) for _ in range(3)]
        fts.append(mkbind(g, "feat", g.ctx("fs", g.info[fs]["ps"]), 0, 0) if g.p(.3) else fts[0])
        kw["fs"] = fs if g.p(.97) else 0
    ps = [g.num_param("abc"[i], dt="i") if g.p(.8) else g.param("abc"[i], kinds=("num", "disc")) for i in range(g.r.randrange(1, 4))]
    os = g.ctx("os", ps)
    for p in ps[:g.r.randrange(1, 4)]:
        g.op("osobj", s=os, es=[g.as_slot(g.variable(p) if g.p(.85) else g.number(ps, 1))], ts=[g.r.randrange(2)], one=1)
    tu = g.slot()
    g.op("mktuner", d=tu, k=k, name="tu", cs=cs if g.p(.97) else g.ch(0, os), os=os if g.p(.97) else g.ch(0, cs), **kw)
    g.hold("tuner", tu)
    confs = []
    ek = {"tuner": "eval", "ftuner": "feval", "ttuner": "teval"}[k]
    evs = []
    f = lambda: {"f": g.r.choice(fts) if g.p(.95) else 0} if k == "ftuner" else {}
    f0 = lambda: {"f": g.ch(0, 0, g.r.choice(fts))} if k == "ftuner" else {}
    for i in range(n):
        w = g.r.random()
        if w < .2 or not confs:
            m = g.ch(1, 1, 2, 3)
            ds = [g.slot() for _ in range(m)]
            if g.p(.5):
                g.script()
            g.op("ask", s=tu, n=m, d=ds, cnt=g.r.randrange(2), **f())
            confs += ds
            for d in ds:
                g.hold("tconf" if k == "ttuner" else "conf", d)
        elif w < .25:
            g.op("ask", s=tu, n=0, d=[], **f())
        elif w < .65:
            es = []
            for _ in range(g.ch(1, 1, 2, 3)):
                e = g.slot()
                ekw = dict(c=g.r.choice(confs), r=0 if g.p(.85) else -1)
                if k == "ftuner":
                    ekw["f"] = g.r.choice(fts)
                vals = [g.pvalue(p, .01, 0) for p in ps]
                if evs and g.p(.25):
                    vals = list(g.info[g.r.choice(evs)]["vals"])
                g.op("mkbind", d=e, k=ek, s=os, vals=vals, tr=0, **ekw)
                g.hold(ek, e, vals=vals)
                evs.append(e)
                es.append(e)
            if g.p(.04):
                es.insert(g.r.randrange(len(es) + 1), g.ch(0, cs))
            if g.p(.1):
                es.append(g.r.choice(evs))
            g.op("tell", s=tu, es=es)
            g.op("tuopt", s=tu, **f0())
        elif w < .75:
            d = g.slot()
            if g.p(.5):
                g.script()
            g.op("suggest", s=tu, d=d, **f())
            g.hold("tconf" if k == "ttuner" else "conf", d)
        elif w < .83:
            g.op("tuhist", s=tu, **f0())
        elif w < .88:
            g.op(g.ch("tuopt", "tuhist"), s=tu, n=g.r.randrange(1, 8), **f0())
        elif w < .9:
            g.op("tuinfo", s=tu)
        elif w < .95 and evs:
            e = g.r.choice(evs)
            if e in g.held[ek]:
                g.op("rel", s=e)
                g.held[ek].remove(e)
                evs.remove(e)
        elif evs:
            g.op("tell", s=tu, es=[])
    if part:
        return g, tu, k, cs, os, ps, fts
    g.op("tuhist", s=tu, **f0())
    g.op("tuopt", s=tu, **f0())
    return g.end()

# ---- lifetime --------------------------------------------------------------
def life(seed, n=50):
    """objects of every kind referring to one another, retained and released in any order"""
    g = G(seed)
    held = []

    def put(s, *more):
        for x in (s,) + more:
            if x and x not in held:
                held.append(x)

    def pick(kind):
        l = [s for s in g.held.get(kind, []) if s in held]
        return g.r.choice(l) if l else None

    def new():
        w = g.r.randrange(16)
        before = g.n
        if w == 0:
            g.param("p%d" % g.n)
        elif w == 1:
            ps = [p for p in g.held.get("param", []) if p in held]
            if ps:
                g.as_slot(g.anyexpr(ps, 1))
        elif w == 2:
            g.dist()
        elif w == 3:
            g.rng()
        elif w in (4, 5):
            ps = [p for p in g.held.get("param", []) if p in held]
            ps = g.r.sample(ps, min(len(ps), g.r.randrange(1, 4)))
            if len({g.info[p]["name"] for p in ps}) == len(ps) and ps:
                g.ctx(g.ch("cs", "fs", "os"), ps)
        elif w == 6 and pick("cs"):
            c = pick("cs")
            mkbind(g, "conf", c, 0, 0)
        elif w == 7 and pick("fs"):
            mkbind(g, "feat", pick("fs"), 0, 0)
        elif w == 8 and pick("os") and pick("conf"):
            mkbind(g, "eval", pick("os"), 0, 0, c=pick("conf"), r=0)
        elif w == 9 and pick("os") and pick("conf") and pick("feat"):
            mkbind(g, "feval", pick("os"), 0, 0, c=pick("conf"), f=pick("feat"), r=0)
        elif w == 10:
            tree(g, 1, 2, .6)
        elif w == 11 and pick("tree"):
            s = g.slot()
            g.op("mktspace", d=s, name="x", t=pick("tree"), dyn=g.ch(0, 1))
            g.hold("tspace", s)
        elif w == 12 and pick("tspace"):
            s = g.slot()
            g.op("mktconf", d=s, s=pick("tspace"), p=g.ch([], [0]))
            g.hold("tconf", s)
        elif w == 13 and pick("cs") and pick("os"):
            s = g.slot()
            g.op("mktuner", d=s, k="tuner", name="t", cs=pick("cs"), os=pick("os"))
            g.hold("tuner", s)
        elif w == 14:
            s = g.slot()
            g.op("mkmap", d=s)
            g.hold("map", s)
        elif w == 15 and pick("tspace") and pick("os"):
            s = g.slot()
            g.op("mktuner", d=s, k="ttuner", name="t", cs=pick("tspace"), os=pick("os"))
            g.hold("ttuner", s)
        for s in range(before + 1, g.n + 1):
            if any(s in l for l in g.held.values()):
                put(s)

    for i in range(n):
        w = g.r.random()
        if w < .5 or len(held) < 4:
            new()
        elif w < .58:
            s = g.r.choice(held)
            g.op("cb", s=s, c=g.r.randrange(1, 9))
        elif w < .64:
            s = g.r.choice(held)
            g.op("ret", s=s)
            g.held.setdefault("extra", []).append(s)
        elif w < .67:
            g.op(g.ch("retnull", "relnull"))
        elif w < .7:
            s = g.r.choice(held)
            g.op("sud", s=s, v=g.r.randrange(1, 99))
            g.op("gud", s=s)
        elif w < .72:
            g.op("otype", s=g.r.choice(held))
        elif w < .78 and pick("map") and len(held) > 1:
            m = pick("map")
            others = [s for s in held if s != m and s not in g.held.get("map", [])]
            o = g.r.choice(others)
            g.op("mset", m=m, k=["o", o] if g.p(.5) else I(g.r.randrange(4)), v=["o", o] if g.p(.7) else I(1), tr=0)
        elif w < .8 and pick("tuner") and pick("eval"):
            g.op("tell", s=pick("tuner"), es=[pick("eval")])
        elif w < .82 and pick("cs") and pick("rng"):
            g.op("cssetrng", s=pick("cs"), r=pick("rng"))
        elif w < .84 and pick("cs"):
            c = pick("cs")
            SP.samples(g, c, 1)
            put(g.n)
        else:
            s = held.pop(g.r.randrange(len(held)))
            g.op("rel", s=s)
            if s in g.held.get("extra", []):
                g.held["extra"].remove(s)
                held.append(s)
            for l in g.held.values():
                if s in l and s not in held:
                    l.remove(s)
    return g.end()

def lookups(seed):
    """spaces that grow and share parameters, and the parameters found in them by position, name and handle, again and again"""
    g = G(seed)
    names = ["a", "b", "c", "d", "ab", "ba", "aa", "abc"] + ["n%d" % i for i in range(g.ch(0, 0, 4, 40))]
    ps = []
    for n in names:
        ps.append(g.param(n, kinds=("num", "cat", "ord") if n not in ("c", "ba") else ("num", "disc")))
    for n in g.r.sample(names, 3):                            # others of the same names
        ps.append(g.param(n, kinds=("num", "cat")))
    cs = [g.ctx(k, []) for k in ("cs", "fs", "os", g.ch("cs", "fs", "os"))]
    own = {c: [] for c in cs}
    kind = dict(zip(cs, ("cs", "fs", "os")))
    kind[cs[3]] = next(o["k"] for o in g.ops if o["a"] == "mkctx" and o["d"] == cs[3])
    def add(c):
        n = g.ch(1, 1, 2, 3, len(ps) // 2)
        new = g.r.sample(ps, n)
        # a batch may have taken the elements before a faulty one: only whole batches are given
        taken = {g.info[p].get("name") for p in own[c]}
        whole = []
        for p in new:
            nm = g.info[p].get("name")
            if nm not in taken:
                taken.add(nm)
                whole.append(p)
        bad = [p for p in new if p not in whole]
        kw = {"ds": [0]} if kind[c] == "cs" else {}
        if whole:
            if len(whole) == 1:
                g.op("ctxadd", s=c, ps=whole, one=1, **kw)
            else:
                g.op("ctxadd", s=c, ps=whole, **({"ds": []} if kw else {}))
            own[c] += whole
        if bad and g.p(.3):
            g.op("ctxadd", s=c, ps=bad[:1], one=1, **kw)
    for c in cs:
        add(c)
    for _ in range(g.r.randrange(6, 14)):
        if g.p(.3):
            add(g.r.choice(cs))
        c = g.r.choice(cs)
        by = g.ch("n", "n", "ni", "ni", "p", "i", "ps", "cap")
        for _ in range(g.r.randrange(1, 6)):
            if g.p(.2):
                c = g.r.choice(cs)
            n = len(own[c])
            if by in ("n", "ni"):
                x = g.info[g.r.choice(own[c])]["name"] if n and g.p(.8) else g.ch("zz", "abcd", "n1", "a", "")
            elif by == "p":
                x = g.r.choice(own[c]) if n and g.p(.7) else g.r.choice(ps)
            elif by == "i":
                x = g.r.randrange(n + 1)
            elif by == "ps":
                x = g.r.sample(own[c], g.r.randrange(n + 1)) + ([g.r.choice(ps)] if g.p(.3) else [])
            else:
                x = g.r.randrange(max(1, n - 1), n + 3)
            g.op("ctxget", s=c, by=by, x=x)
    return g.end()
