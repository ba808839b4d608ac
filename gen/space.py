"""Configuration, features and objective spaces; distributions; bindings."""
from gen.base import *

def conds(g, ps, mul=True):
    """parameters expressions may do arithmetic on"""
    return ps

def cond_expr(g, ps, depth=None, wrong=.01):
    return g.as_slot(g.boolean(ps, g.r.randrange(2) if depth is None else depth, wrong))

def vector(g, c, wrong=.04, inact=.1):
    return [g.pvalue(p, wrong, inact) for p in g.info[c]["ps"]]

def observe(g, c, n=2, default=True):
    """everything visible of a space"""
    g.op("csdump", s=c)
    if default:
        d = g.slot()
        g.op("csdefault", s=c, d=d)
        g.hold("conf", d, ctx=c)
        if g.p(.3):
            g.op("bcheck", b=d)
    for _ in range(n):
        g.op("checkv", s=c, vals=vector(g, c, .03, .2), tr=g.r.randrange(2))

def samples(g, c, n=None):
    n = g.r.choice([1, 1, 2, 3, 5]) if n is None else n
    one = n == 1 and g.p(.6)
    ds = [g.slot() for _ in range(n)]
    if g.p(.5):
        g.script()
    g.op("cssample", s=c, n=n, d=ds, **({"one": 1} if one else {}))
    for d in ds:
        g.hold("conf", d, ctx=c, sampled=True)
    return ds

def space(seed, focus="", steps=26, part=False):
    """a configuration space, mutated by good and bad calls, observed all along"""
    g = G(seed)
    small = focus in ("cond", "sample") and g.p(.6)
    kinds = ("num", "cat", "ord", "disc") if not small else ("cat", "ord", "num")
    names = ["p", "q", "r", "s", "t", "u", "v"]
    g.r.shuffle(names)
    npar = g.r.randrange(1, 6)
    ps = []
    for i in range(npar):
        if small:
            p = g.num_param(names[i], dt="i") if g.p(.3) else g.enum_param(g.ch("cat", "ord"), names[i], n=g.r.randrange(1, 4), types="ibs")
        else:
            p = g.param(names[i], kinds=kinds)
        ps.append(p)
    other = g.param(names[0])                       # same name as one of the space
    foreign = g.param("zzz")
    sp = g.str_param("str")
    wd = focus in ("dist", "sample") and not small
    c = g.slot()
    g.op("mkctx", d=c, k="cs", name="space")
    g.hold("cs", c, ps=[])
    g.info[c]["ps"] = inside = []
    rest = list(ps)
    r = None
    if g.p(.8):
        r = g.rng()
        g.op("cssetrng", s=c, r=r)

    def add(good=True):
        if good and rest:
            k = 1 if g.p(.5) else g.r.randrange(1, len(rest) + 1)
            new = rest[:k]
            del rest[:k]
            ds = [g.dist_for(p) if wd and g.p(.4) else 0 for p in new]
            if len(new) == 1 and g.p(.5):
                g.op("ctxadd", s=c, ps=new, ds=ds, one=1)
            else:
                g.op("ctxadd", s=c, ps=new, ds=ds if any(ds) or g.p(.3) else [])
            inside.extend(new)
        else:
            w = g.r.randrange(5)
            bad = [other, sp, 0, g.r.choice(inside) if inside else 0, r or 0][w]
            new = [rest[0]] if rest and g.p(.4) else []
            # one bad call after a good addition: the good part stays
            ds = []
            if w == 4 and g.p(.7):
                bad = foreign
                d2 = g.mul([g.uni("i"), g.uni("i")])
                ds = [0] * len(new) + [d2]
            if other == bad and not any(g.info[p]["name"] == names[0] for p in inside + new):
                bad = sp
            if len(new) == 0 and g.p(.6):
                g.op("ctxadd", s=c, ps=[bad], ds=ds or [0], one=1)
            else:
                g.op("ctxadd", s=c, ps=new + [bad], ds=ds)
                inside.extend(new)
                del rest[:len(new)]

    def cond(good=True):
        if not inside:
            return
        i = g.r.randrange(len(inside))
        if good:
            # depend on a later or an earlier one, mostly acyclic
            pool = [p for p in inside if p != inside[i]]
            if g.p(.8):
                pool = pool[:i] if pool[:i] else pool
            if not pool:
                return
            e = cond_expr(g, pool)
            g.op("cscond", s=c, i=i, e=e)
        else:
            w = g.r.randrange(5)
            if w == 0:
                g.op("cscond", s=c, i=len(inside) + g.r.randrange(3), e=cond_expr(g, inside))
            elif w == 1:
                g.op("cscond", s=c, i=i, e=0)
            elif w == 2:
                g.op("cscond", s=c, i=i, e=cond_expr(g, inside + [foreign], 1))
            elif w == 3:
                g.op("cscond", s=c, i=i, e=cond_expr(g, [inside[i]], 0))
            else:
                g.op("cscond", s=c, i=i, e=cond_expr(g, inside, 2))

    def forb(good=True):
        if not inside:
            return
        if good:
            es = [cond_expr(g, inside, g.r.randrange(3)) for _ in range(1 if g.p(.7) else g.r.randrange(1, 4))]
        else:
            es = [g.ch(cond_expr(g, inside + [foreign], 1), 0, g.as_slot(g.anyexpr(inside, 1)))]
            if g.p(.5):
                es.insert(0, cond_expr(g, inside))
        if len(es) == 1 and g.p(.5):
            g.op("csforb", s=c, es=es, one=1)
        else:
            g.op("csforb", s=c, es=es)

    def setdist(good=True):
        if not inside:
            return
        k = min(len(inside), g.ch(1, 1, 2, 3))
        ix = g.r.sample(range(len(inside)), k)
        if k == 1 and g.p(.7):
            d = g.dist_for(inside[ix[0]])
        elif g.p(.7):
            d = g.mul([g.dist_for(inside[i]) for i in ix])
            if g.p(.2):
                d2 = g.mul([g.dist_for(inside[i]) for i in ix])
                d = g.mix([d, d2])
        else:
            d = g.dist([g.ptype(inside[i]) for i in ix])
        if not good:
            w = g.r.randrange(4)
            if w == 0:
                ix[g.r.randrange(k)] = len(inside) + g.r.randrange(2)
            elif w == 1 and k > 1:
                i, j = g.r.sample(range(k), 2)
                ix[i] = ix[j]
            elif w == 2:
                d = 0
            else:
                d = g.dist([g.ch("i", "f") for _ in ix])
        g.op("cssetdist", s=c, dist=d, ix=ix)

    W = {"": (3, 2, 3, 2, 2, 1, 1, 1, 4), "mut": (4, 3, 4, 4, 3, 3, 1, 1, 2), "cond": (3, 0, 5, 1, 1, 0, 0, 0, 5),
         "check": (3, 0, 3, 1, 3, 0, 0, 0, 1), "sample": (3, 0, 2, 0, 3, 0, 3, 0, 6), "dist": (3, 1, 1, 0, 1, 0, 6, 3, 4)}[focus]
    for step in range(steps):
        what = g.r.choices(range(9), W)[0]
        if step < 2 or not inside:
            what = 0
        if what == 0:
            add()
        elif what == 1:
            add(False)
        elif what == 2:
            cond()
        elif what == 3:
            cond(False)
        elif what == 4:
            forb()
        elif what == 5:
            forb(False)
        elif what == 6:
            setdist()
        elif what == 7:
            setdist(False)
        else:
            samples(g, c)
        if what != 8 and (focus == "mut" or g.p(.35)):
            observe(g, c, 1 if focus == "mut" else 2)
        if focus == "mut" and what in (3, 1, 5) and g.p(.3):
            samples(g, c, 2)
        if focus == "check":
            for _ in range(4):
                g.op("checkv", s=c, vals=vector(g, c, .02, g.ch(0, .15, .4)), tr=g.r.randrange(2))
            if g.p(.1):
                v = vector(g, c)
                g.op("checkv", s=c, vals=v + [NONE] if g.p(.5) else v[:-1], tr=0)
            if g.p(.5) and inside:
                b = g.slot()
                g.op("mkbind", d=b, k="conf", s=c, vals=vector(g, c, .05, .2), tr=0)
                g.hold("conf", b, ctx=c)
                g.op("bcheck", b=b)
        if g.p(.06) and inside:
            g.op("csget", s=c, w=g.ch("cond", "forb", "dist"), i=g.r.randrange(len(inside) + 2))
        if g.p(.04):
            r2 = g.ch(g.rng(), 0)
            g.op("cssetrng", s=c, r=r2)
            g.op("csgetrng", s=c)
        if g.p(.05) and g.held.get("conf"):
            g.op("rel", s=g.held["conf"].pop(g.r.randrange(len(g.held["conf"]))))
        if g.p(.05) and g.held.get("dist"):
            g.op("rel", s=g.held["dist"].pop(g.r.randrange(len(g.held["dist"]))))
    if part:
        return g, c
    observe(g, c, 3)
    samples(g, c, 3)
    return g.end()

def foreign(seed):
    """checks against the wrong space, for configurations and features"""
    g = G(seed)
    for k, bk in (("cs", "conf"), ("fs", "feat")):
        ps = [g.param(n) for n in ("a", "b", "c")[:g.r.randrange(1, 4)]]
        a, b = g.ctx(k, ps), g.ctx(k, ps)
        for _ in range(4):
            x = g.slot()
            c = g.ch(a, b)
            g.op("mkbind", d=x, k=bk, s=c, vals=vector(g, c, .1, .1), tr=0)
            g.op("bcheck", b=x)
            g.op("bcheck", b=x, s=a)
            g.op("bcheck", b=x, s=b)
    for k in ("fs", "os", "cs"):
        ps = [g.param(n, kinds=("num", "cat", "ord", "disc", "str") if k != "cs" else ("num", "cat", "ord", "disc")) for n in ("a", "b", "c", "d")[:g.r.randrange(1, 5)]]
        c = g.ctx(k, ps, each=g.p(.5))
        for _ in range(10):
            g.op("checkv", s=c, vals=vector(g, c, .12, .05), tr=g.r.randrange(2))
        v = vector(g, c)
        g.op("checkv", s=c, vals=v + [I(1)], tr=0)
        g.op("checkv", s=c, vals=v[:-1], tr=0)
        bk = {"fs": "feat", "os": "eval", "cs": "conf"}[k]
        if bk == "eval":
            cs = g.ctx("cs", [g.param("x")])
            cf = g.slot()
            g.op("mkbind", d=cf, k="conf", s=cs, vals=vector(g, cs), tr=0)
        for _ in range(3):
            b = g.slot()
            g.op("mkbind", d=b, k=bk, s=c, vals=vector(g, c, .1, .05), tr=0, **({"c": cf, "r": g.ch(0, 0, -3, 5)} if bk == "eval" else {}))
            g.op("bcheck", b=b)
    return g.end()

def empty(seed):
    """spaces without parameters"""
    g = G(seed)
    es, bs = {}, {}
    for k in ("cs", "fs", "os"):
        c = g.ctx(k, [])
        es[k] = c
        g.op("ctxdump", s=c)
        g.op("checkv", s=c, vals=[], tr=0)
        g.op("checkv", s=c, vals=[I(1)], tr=0)
        for by, x in (("i", 0), ("n", "p"), ("ni", "p"), ("cap", 0), ("cap", 2), ("ps", [])):
            g.op("ctxget", s=c, by=by, x=x)
    e = g.slot()
    g.op("mkexpr", d=e, t="eq", n=[I(1), I(g.r.randrange(2))], f=0)
    if g.p(.5):
        g.op("csforb", s=es["cs"], es=[e], one=1)
        g.op("csdump", s=es["cs"])
    if g.p(.5):
        g.op("osobj", s=es["os"], es=[e], ts=[g.r.randrange(2)], one=1)
        g.op("osdump", s=es["os"])
    g.op("cscond", s=es["cs"], i=0, e=e)
    d = g.slot()
    g.op("csdefault", s=es["cs"], d=d)
    cs = [d] + samples(g, es["cs"], 2)
    for k, bk in (("cs", "conf"), ("fs", "feat")):
        b = g.slot()
        g.op("mkbind", d=b, k=bk, s=es[k], vals=[], tr=0, **g.ch({}, {"nov": 1}))
        bs[bk] = b
        g.op("bcheck", b=b)
        g.op("bvals", b=b, g=0)
        g.op("bsets", b=b, vals=[], tr=0)
    cs.append(bs["conf"])
    g.op("bcmps", bs=cs, g=0)
    g.op("bhashes", bs=cs, g=0)
    for bk, x in (("eval", {}), ("feval", {"f": bs["feat"]})):
        ev = []
        for r in (0, 0, -3):
            b = g.slot()
            g.op("mkbind", d=b, k=bk, s=es["os"], vals=[], tr=0, c=bs["conf"], r=r, **x)
            g.op("bcheck", b=b)
            g.op("evobj", b=b)
            ev.append(b)
        for a in ev:
            for b in ev:
                g.op("evcmp", x=a, y=b)
    t = g.slot()
    g.op("mktuner", d=t, k="tuner", name="t", cs=es["cs"], os=es["os"])
    g.op("ask", s=t, n=1, d=[g.slot()], cnt=1)
    g.op("tuopt", s=t)
    g.op("suggest", s=t, d=g.slot())
    return g.end()

def cover(seed):
    """every valid configuration of a small space comes out of sampling"""
    g = G(seed)
    ps = []
    for i in range(g.r.randrange(1, 4)):
        n = "pqrs"[i]
        ps.append(g.enum_param(g.ch("cat", "ord", "disc"), n, n=g.r.randrange(1, 4), types="ibs") if g.p(.7) else None)
        if ps[-1] is None:
            s = g.slot()
            lo = g.r.randrange(-2, 2)
            hi = lo + g.r.randrange(1, 4)
            o = dict(d=s, k="num", name=n, dt="i", lo=I(lo), hi=I(hi), q=I(0), df=I(lo), g=0)
            g.op("mkparam", **o)
            ps[-1] = g.hold("param", s, pk="num", **o)
    c = g.ctx("cs", ps)
    g.op("cssetrng", s=c, r=g.rng("0", 7))
    for i in range(len(ps)):
        if g.p(.4) and len(ps) > 1:
            g.op("cscond", s=c, i=i, e=cond_expr(g, [p for p in ps if p != ps[i]], 0, 0))
    for _ in range(g.r.randrange(0, 2)):
        g.op("csforb", s=c, es=[cond_expr(g, ps, 1, 0)], one=1)
    g.op("cscover", s=c, n=3000)
    return g.end()

def graph(seed, focus="", most=9):
    """conditions on many parameters, in any direction, with attempts to close cycles"""
    g = G(seed)
    n = g.r.randrange(4 if most == 9 else most // 2 + 2, most)
    ps = []
    for i in range(n):
        s = g.slot()
        o = dict(d=s, k="cat", name="abcdefghijklmnopqrst"[i], vals=[I(j) for j in range(2 if g.p(.8) else 3)], di=g.r.randrange(2)) if g.p(.7) else \
            dict(d=s, k="num", name="abcdefghijklmnopqrst"[i], dt="i", lo=I(0), hi=I(2), q=I(0), df=I(g.r.randrange(2)), g=0)
        g.op("mkparam", **o)
        ps.append(g.hold("param", s, pk=o["k"], **o))
    late = g.r.randrange(3)
    c = g.ctx("cs", ps[:n - late])
    inside = g.info[c]["ps"] = ps[:n - late]
    late = ps[n - late:]
    g.op("cssetrng", s=c, r=g.rng())
    rank = {p: i for i, p in enumerate(g.r.sample(ps, n))}
    dense = g.ch(.3, .6, .9)
    def asks(pool):
        """a condition on one to three parameters of the pool"""
        l = g.r.sample(pool, min(len(pool), g.ch(1, 1, 2, 2, 3)))
        nd = None
        for p in l:
            x = g.node(g.expr_(g.ch("eq", "eq", "ne"), [g.node(p), I(g.r.randrange(2))]))
            nd = x if nd is None else g.node(g.expr_(g.ch("and", "and", "or"), [nd, x]))
        return nd[1]
    todo = g.r.sample(range(n), n)
    for i in todo:
        if late and g.p(.4):
            p = late.pop(0)
            g.op("ctxadd", s=c, ps=[p], ds=[0], one=1)
            inside.append(p)
        if i >= len(inside) or not g.p(dense):
            continue
        if g.p(.3):                                  # anything goes
            g.op("cscond", s=c, i=i, e=asks(inside))
            look = True
        else:
            pool = [p for p in inside if rank[p] < rank[inside[i]]]
            if not pool:
                continue
            g.op("cscond", s=c, i=i, e=asks(pool))
            look = g.p(.4)
        if g.p(.15):
            g.op("csforb", s=c, es=[asks(inside)], one=1)
        if look:
            observe(g, c, 2)
            if g.p(.5):
                samples(g, c, 2)
    observe(g, c, 6)
    for d in samples(g, c, 5):
        g.op("bcheck", b=d)
    return g.end()

def tries(seed):
    """valid configurations come late in the random stream"""
    g = G(seed)
    k, gi = g.r.randrange(1, 4), g.r.randrange(2)
    ps = []
    for i in range(k):
        s = g.slot()
        o = dict(d=s, k=g.ch("cat", "ord"), name="pqr"[i], vals=[I(1), I(2)], di=gi)
        g.op("mkparam", **o)
        ps.append(g.hold("param", s, pk=o["k"], **{x: y for x, y in o.items() if x != "k"}))
    c = g.ctx("cs", ps)
    q = g.r.choice(ps)
    g.op("csforb", s=c, es=[g.expr_("eq", [g.variable(q), g.literal(I(2 - gi))])], one=1)
    g.op("cssetrng", s=c, r=g.rng("script"))
    word = [1 << 20, 3 << 30]
    for n in g.r.sample([1, 1, 2, 2, 3, 4], 4):
        top = 100 * n - n
        for bad in {0, 1, 99, 100, top, g.r.randrange(top + 1), g.r.randrange(top + 1)}:
            if bad > top:
                continue
            g.op("script", sc=[word[1 - gi]] * (k * bad) + [word[gi]] * (k * (n + 2)), seed=1)
            ds = [g.slot() for _ in range(n)]
            g.op("cssample", s=c, n=n, d=ds, bad=bad, **({"one": 1} if n == 1 and g.p(.5) else {}))
            for d in ds:
                g.op("rel", s=d)
    g.op("script", sc=[word[1 - gi]] * 60000, seed=1)
    g.op("cssample", s=c, n=2, d=[g.slot(), g.slot()], bad=20000)
    g.op("script", sc=[], seed=1)
    return g.end()

# ---- distributions --------------------------------------------------------------
def iv_for(g, t):
    mk = g.mk(t)
    a = g.r.randrange(-8, 6)
    return [mk(a), mk(a + g.r.randrange(0, 16)), g.r.randrange(2), g.r.randrange(2)]

def dists(seed, n=7):
    g = G(seed)
    rs = [g.rng("script"), g.rng(g.ch("0", "1", "2", "3")), g.rng("script")]
    for _ in range(n):
        w = g.r.random()
        if w < .2:
            k = g.r.randrange(6)
            if k == 0:
                g.uni(good=False)
            elif k == 1:
                g.nor(good=False)
            elif k == 2:
                g.rou(good=False)
            elif k == 3:
                g.mul([g.any("dist", 0), 0] if g.p(.5) else [])
            elif k == 4:
                g.mix([g.dist(["i"], 0), g.dist(["i"], 0)], good=False)
            else:
                x = g.dist(["i"], 0)
                g.mix(g.ch([x, g.dist(["f"], 0)], [x, g.dist(["i", "i"], 1)], [x, 0], [],
                           [g.dist(["i", "f"], 1), g.dist(g.ch(["i", "i"], ["f", "f"]), 1)],
                           [g.dist(["i", "f", "f"], 1), g.dist(["i", "f", g.ch("i", "f")], 1), g.dist(["i", g.ch("i", "f"), "f"], 1)]))
            d = g.held["dist"].pop()
            g.op("dinfo", s=d) if g.p(.2) else None
            continue
        if w < .24:       # normal distributions at the ends of the integers
            d, sc = g.slot(), g.r.randrange(2)
            mu, sg = (g.ch(F(175, 2), F(351, 3), F(349, 3)), g.ch(F(1, 2), F(1))) if sc else (["f", g.ch(-1, 1) * (1048000 + g.ch(61, 62, 63)), 0], g.ch(F(0), F(1)))
            q = g.ch(0, 1, 2, 3, 5, 800008, 800007, 800005, 1000010)
            g.op("mkdist", d=d, k="nor", dt="i", mu=mu, sigma=sg, sc=sc, q=I(q), g=g.r.randrange(2))
            g.hold("dist", d, dim=1, types=["i"], dk="nor")
        elif w < .29:       # extreme ranges
            s = g.slot()
            lo, hi = g.ch((-1000010, 4), (-1000010, 1000010), (0, 1000010), (5, 1000009))
            g.op("mkdist", d=s, k="uni", dt="i", lo=I(lo), hi=I(hi), sc=g.r.randrange(2), q=I(0), g=g.r.randrange(2))
            d = g.hold("dist", s, dim=1, types=["i"], dk="uni")
            if lo <= 0:
                g.ops[-1]["sc"] = 0
        else:
            d = g.dist()
        g.op("dinfo", s=d)
        i = g.info[d]
        for _ in range(2):
            ts = [t if g.p(.97) else ("f" if t == "i" else "i") for t in i["types"]]
            g.op("dover", s=d, iv=[iv_for(g, t) for t in ts])
        for form in ("one", "many", "str", "soa"):
            g.script()
            kw = {"form": form}
            m = g.ch(1, 3, 8, 16)
            if form == "str":
                kw["stride"] = i["dim"] + g.r.randrange(0, 3) if g.p(.9) else max(0, i["dim"] - 1)
            if form == "soa":
                kw["skip"] = [j for j in range(i["dim"]) if g.p(.2)]
            if g.p(.05) and form != "one":
                m = 0
            g.op("dsamp", s=d, r=g.r.choice(rs), n=m, **kw)
        # for parameters
        ps = []
        for t in i["types"]:
            ps.append(g.param(kinds=("num",), dt=t) if t == "f" or g.p(.5) else g.enum_param(n=g.r.randrange(1, 6)))
        g.script()
        if i["dim"] == 1:
            g.op("psamp", p=ps[0], s=d, r=g.r.choice(rs), n=g.ch(1, 2, 6), **({"one": 1} if g.p(.4) else {}))
        elif g.p(.1):
            g.op("psamp", p=ps[0], s=d, r=g.r.choice(rs), n=2)
        g.script()
        g.op("dpsamp", s=d, ps=ps, r=g.r.choice(rs), n=g.ch(1, 2, 5), **({"one": 1} if g.p(.4) else {}))
    # parameters and distributions of their own
    for _ in range(3):
        p = g.param(kinds=("num", "cat", "ord", "disc", "num", "str"))
        if g.info[p]["pk"] == "str":
            d = g.slot()
            g.op("pdefd", p=p, d=d)
            continue
        d = g.slot()
        g.op("pdefd", p=p, d=d)
        g.hold("dist", d, dim=1, types=[g.ptype(p)])
        g.op("dinfo", s=d)
        for dd in (d, g.dist_for(p), g.dist_for(p)):
            g.script()
            g.op("psamp", p=p, s=dd, r=g.r.choice(rs), n=g.ch(1, 4, 9), **({"one": 1} if g.p(.3) else {}))
        t = g.ptype(p)
        mk = g.mk(t)
        g.op("pconv", p=p, ov=1, vs=[mk(g.r.randrange(-10, 12)) for _ in range(5)])
        if g.info[p]["pk"] != "num":
            g.op("pconv", p=p, ov=0, vs=[I(g.r.randrange(len(g.info[p]["vals"]))) for _ in range(4)])
        if g.p(.2):
            wt = "f" if t == "i" else "i"
            g.op("psamp", p=p, s=g.dist1(wt), r=rs[1], n=2)
    return g.end()

def dcover(seed):
    """whole support reached: uniform and roulette over few integers"""
    g = G(seed)
    r = g.rng("0", 5)
    for _ in range(4):
        lo = g.r.randrange(-5, 5)
        n = g.r.randrange(1, 7)
        s = g.slot()
        g.op("mkdist", d=s, k="uni", dt="i", lo=I(lo), hi=I(lo + n), sc=0, q=I(0), g=g.r.randrange(2))
        g.op("dcover", s=s, r=r, lo=lo - 1, n=n + 2, m=1500)
        d = g.rou()
        g.op("dcover", s=d, r=r, lo=-1, n=9, m=3000)
    q = g.ch(2, 3)
    k = g.r.randrange(1, 4)
    s = g.slot()
    g.op("mkdist", d=s, k="uni", dt="i", lo=I(1), hi=I(1 + q * k), sc=0, q=I(q), g=0)
    g.op("dcover", s=s, r=r, lo=0, n=q * k + 2, m=1500)
    return g.end()
