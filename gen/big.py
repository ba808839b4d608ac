"""Things of sizes the other generators do not reach."""
from gen.base import *
from gen import objs, space

def maps(seed):
    """maps of tens and hundreds of entries: their tables grow, and shrink again"""
    g = G(seed)
    m = g.slot()
    g.op("mkmap", d=m)
    n = g.ch(40, 70, 70, 260)
    step = g.ch(1, 32, 256)
    key = lambda i: S("k%d" % i) if i % 3 == 0 else I(i * step) if i % 3 == 1 else F(i, 1)
    for i in range(n):
        g.op("mset", m=m, k=key(i), v=g.ch(I(i), S("v%d" % i), NONE), tr=g.r.randrange(2))
        if g.p(.05):
            g.op("mget", m=m, k=key(g.r.randrange(n)))
    g.op("mdump", m=m)
    for i in g.r.sample(range(n + 3), min(n, 40)):
        w = g.r.random()
        if w < .3:
            g.op("mexist", m=m, k=key(i))
        elif w < .6:
            g.op("mget", m=m, k=key(i))
        elif w < .8:
            g.op("mset", m=m, k=key(i), v=I(-i), tr=0)
        elif i < n:
            g.op("mdel", m=m, k=key(i))
    g.op("mdump", m=m)
    return g.end()

def trees(seed):
    """trees that are deep, or wide"""
    g = G(seed)
    path, all_ = [], []
    wide = g.p(.4)
    t = root = g.slot()
    g.op("mktree", d=t, ar=g.ch(12, 20) if wide else 2, v=I(0))
    all_.append(t)
    if wide:
        for i in g.r.sample(range(14), 8):
            c = g.slot()
            g.op("mktree", d=c, ar=1, v=I(i))
            g.op("tset", s=root, i=i, c=c)
            all_.append(c)
            path = [i]
    else:
        for d in range(g.r.randrange(8, 15)):
            c = g.slot()
            i = g.r.randrange(2)
            g.op("mktree", d=c, ar=2, v=I(d + 1))
            g.op("tset", s=t, i=i, c=c)
            if g.p(.3):
                o = g.slot()
                g.op("mktree", d=o, ar=1, v=I(-d))
                g.op("tset", s=t, i=1 - i, c=o)
                all_.append(o)
            path.append(i)
            all_.append(c)
            t = c
    for x in g.r.sample(all_, min(len(all_), 8)) + [t]:
        g.op("tinfo", s=x)
        g.op("tcap", s=x, f=g.ch("ch", "pos", "vals"), n=g.r.randrange(8, 22))
    for n in sorted(g.r.sample(range(len(path) + 1), min(4, len(path) + 1))) + [len(path)]:
        p = path[:n] + ([g.r.randrange(3)] if g.p(.3) else [])
        g.op("tpos", s=root, p=p, n=len(p) + g.ch(0, 1, 3) or 1)
    g.op("tset", s=t, i=0, c=root)                          # a cycle
    g.op("tinfo", s=root)
    s = g.slot()
    g.op("mktspace", d=s, name="ts", t=root, dyn=0)
    for n in (len(path), max(0, len(path) - 1), len(path)):
        p = path[:n]
        c = g.slot()
        g.op("mktconf", d=c, s=s, p=p)
        g.op("tcvals", b=c, nb=n + 1)
        g.op("tscheck", s=s, p=p + g.ch([], [0], [5]), nb=0)
    return g.end()

def params(seed):
    """parameters with many values"""
    g = G(seed)
    for k in ("cat", "ord", "disc"):
        n = g.ch(18, 24, 40)
        pool = [I(i) for i in range(-10, 20)] + [F(2 * i + 1, 1) for i in range(20)]
        if k != "disc":
            pool += [S("s%d" % i) for i in range(20)] + [Bo(0), Bo(1), NONE]
        vals = g.r.sample(pool, n)
        s = g.slot()
        o = dict(d=s, k=k, name=g.name(), vals=vals, di=g.r.randrange(n))
        g.op("mkparam", **o)
        g.hold("param", s, pk=k, **o)
        g.op("pinfo", p=s)
        vs = g.r.sample(pool, 30) + vals[-3:]
        g.op("pcheck", p=s, vs=vs, b=1)
        g.op("pval", p=s, vs=vs, b=g.r.randrange(2))
        for v in vs[-3:]:
            g.op("pcheck", p=s, vs=[v], b=0)
        if k == "ord":
            for _ in range(12):
                g.op("pcmp", p=s, v=g.r.choice(vals), w=g.r.choice(vals))
        g.op("pgetcap", p=s, k=k, n=n + g.r.randrange(-1, 3))
        g.op("pint", p=s)
    return g.end()

def exprs(seed):
    """long lists, and deep expressions"""
    g = G(seed)
    ps = [g.param("p%d" % i, kinds=("num",)) for i in range(3)]
    c = g.ctx(g.ch("cs", "fs", "os"), ps)
    n = g.ch(9, 12, 20)
    for _ in range(3):
        p = g.r.choice(ps)
        ns = [I(g.r.randrange(-4, 12)) if g.p(.85) else g.node(g.r.choice(ps)) for _ in range(n)]
        l = g.expr_("list", ns)
        e = g.slot()
        g.op("mkexpr", d=e, t="in", n=[g.node(p), g.node(l)], f=0)
        g.op("einfo", e=l)
        g.op("enodes", e=l, n=n + g.ch(-1, 0, 2))
        g.op("eparams", e=e)
        vs = [[g.pvalue(q, 0, .15) for q in ps] for _ in range(5)]
        for v in vs:
            g.op("eeval", e=e, ctx=c, vals=v)
        g.op("elist", e=l, ctx=c, vals=vs[0], i=g.ch(n - 1, n, 8))
    e = g.node(ps[0])
    for i in range(g.r.randrange(8, 16)):
        e = g.node(g.expr_(g.ch("add", "sub"), [e, I(1)] if g.p(.7) else [I(1), e]))
    for _ in range(4):
        g.op("eeval", e=e[1], ctx=c, vals=[g.pvalue(q, 0, .1) for q in ps])
    g.op("eparams", e=e[1])
    return g.end()

def graphs(seed):
    """conditions among tens of parameters"""
    return space.graph(seed, "", 20)
