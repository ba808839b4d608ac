"""Objects written and read back."""
from gen.base import *
from gen import objs as OB, space as SP

FORMS = ("mem", "file", "fd")
BASE = 100000

class T:
    """a trace that serialises"""
    def __init__(self, g):
        self.g = g
        self.nb = 0
        self.nblob = 0

    def base(self):
        self.nb += 1
        return self.nb * BASE

    def decorate(self, slots):
        g = self.g
        for s in slots:
            if g.p(.3):
                g.op("sud", s=s, v=g.r.randrange(1, 500))
            if g.p(.1):
                g.op("scb", s=s, v=g.r.randrange(1, 50))

    def ser(self, s, cb=None):
        g = self.g
        self.nblob += 1
        g.op("ser", s=s, b=self.nblob, cb=g.ch(0, 0, g.r.randrange(1, 40)) if cb is None else cb)
        return self.nblob

    def de(self, b, m=0, **kw):
        g = self.g
        base = self.base()
        g.op("deser", b=b, base=base, form=kw.pop("form", None) or g.r.choice(FORMS), m=m, cb=kw.pop("cb", g.r.randrange(2)), **kw)
        return base

def newmap(g):
    m = g.slot()
    g.op("mkmap", d=m)
    return g.hold("map", m)

def big(g):
    """values at the limits of their written form"""
    return g.ch(I(g.ch(63, 64, -64, -65, 127, 128, -128, -129, 8191, 8192, -8192, -8193, 65535, 524287, 524288, -1000010, 1000010)),
                F(g.ch(-FINF, FINF, 0)), S("x" * g.ch(0, 1, 126, 127, 128, 129, 300, 5000)), S(" \t\n%s"), NONE, INACT, Bo(1))

def longname(g):
    return "n" * g.ch(1, 126, 127, 128, 300)

# ---- simple objects -----------------------------------------------------------
def simple(seed):
    g = G(seed)
    t = T(g)
    k = g.ch("param", "param", "rng", "dist", "dist", "map", "tree", "tree", "lit", "fs", "os")
    extra = []
    if k == "param":
        s = g.param(longname(g) if g.p(.3) else None, kinds=("num", "num", "cat", "ord", "disc", "str"))
        if g.p(.3):
            vals = []
            for _ in range(g.r.randrange(1, 140) if g.p(.2) else g.r.randrange(1, 9)):
                v = big(g) if len(vals) < 6 else I(len(vals))
                if v not in vals and v != INACT:
                    vals.append(v)
            if vals:
                s = g.slot()
                o = dict(d=s, k=g.ch("cat", "ord"), name=longname(g), vals=vals, di=g.r.randrange(len(vals)))
                g.op("mkparam", **o)
                g.hold("param", s, pk=o["k"], **{x: o[x] for x in o if x != "k"})
    elif k == "rng":
        s = g.rng(g.ch("0", "1", "2", "3", "default", *[str(g.r.randrange(4, 70))] * 5))
        if g.p(.5):
            for _ in range(g.r.randrange(1, 4)):
                g.op("dsamp", s=g.dist(["i"], 0), r=s, n=g.r.randrange(1, 9), form="many")
    elif k == "dist":
        s = g.dist(depth=3)
    elif k == "map":
        s = newmap(g)
        other = [g.rng("0"), g.param(), g.uni("i")]
        for _ in range(g.r.randrange(0, 9)):
            v = lambda: [g.ch("o", "oid"), g.r.choice(other)] if g.p(.2) else big(g) if g.p(.3) else g.val("nifbsx")
            g.op("mset", m=s, k=v(), v=v(), tr=g.r.randrange(2))
        extra = other
    elif k == "tree":
        s = OB.tree(g, g.r.randrange(4)) if g.p(.8) else g.hold("tree", g.slot(), ar=0)
        if not any(o["a"] == "mktree" and o["d"] == s for o in g.ops):
            g.op("mktree", d=s, ar=g.ch(0, 130), v=big(g))
        if g.p(.3) and len(g.held["tree"]) > 1:
            s = g.r.choice(g.held["tree"])
    elif k == "lit":
        s = g.as_slot(g.anyexpr([], g.r.randrange(3))) if g.p(.6) else g.expr_("lit", [big(g)], 2)
    else:
        s = OB.mkctx(g, k, g.r.randrange(0, 4))
        if k == "os":
            ps = g.info[s]["ps"]
            if ps:
                es = [g.as_slot(g.number([p for p in ps if g.info[p]["pk"] in ("num", "disc")], 2)) for _ in range(g.r.randrange(4))]
                if es and g.p(.3):
                    es.append(g.r.choice(es))
                for e in es:
                    g.op("osobj", s=s, es=[e], ts=[g.r.randrange(2)], one=1)
    every = sorted({x for l in g.held.values() for x in l})
    t.decorate(every)
    b = t.ser(s)
    for j in range(g.r.randrange(1, 4)):
        m = newmap(g) if g.p(.4) else 0
        if m and g.p(.3):
            g.op("mset", m=m, k=g.val("isb"), v=g.val("isb"), tr=0)
        base = t.de(b, m)
        if m:
            g.op("mdump", m=m)
            if g.p(.4):
                t.de(b, m)
        if k == "rng" and j == 0:
            g.op("twin", x=s, y=base + s, n=g.ch(1, 20))
        elif k == "map":
            for _ in range(3):
                g.op("mget", m=base + s, k=g.val("isb"))
                g.op("mset", m=base + s, k=g.val("isbf"), v=g.val("is"), tr=1)
            g.op("mdump", m=base + s)
        elif k == "tree":
            r = g.rng("1")
            g.op("tsamp", s=base + s, r=r, n=5, one=0)
            g.op("tset", s=base + s, i=0, c=OB.tree(g, 0))
            g.op("tw", s=base + s, w=OB.weight(g))
            for x in g.held["tree"]:
                g.op("tinfo", s=base + x)
        elif k == "param":
            for _ in range(6):
                g.op("pval", p=base + s, vs=[g.pvalue(s, .4)])
        elif k == "dist":
            i = g.info[s]
            g.script()
            g.op("dsamp", s=base + s, r=g.rng("script"), n=6, form=g.ch("many", "soa"), **({"skip": []}))
            if i["dk"] in ("mul", "mix"):
                pass
        if g.p(.4):          # a copy of the copy
            b2 = t.ser(base + s)
            t.de(b2, 0)
        if g.p(.3) and not m:
            g.op("rel", s=base + s)
    if g.p(.3):
        g.op("rel", s=s)
    return g.end()

# ---- configuration spaces -------------------------------------------------------
def spaces(seed):
    g, c = SP.space(seed, random.Random(seed).choice(["mut", "cond", "dist", "dist", "check"]), 14, part=True)
    t = T(g)
    g.op("cssetrng", s=c, r=g.rng(g.ch("0", "1", "2", "3", *[str(g.r.randrange(4, 70))] * 2)))
    t.decorate(sorted({x for l in g.held.values() for x in l if x not in g.held.get("conf", [])}))
    b = t.ser(c)
    t0 = None
    for _ in range(g.r.randrange(1, 3)):
        m = newmap(g) if g.p(.3) else 0
        base = t.de(b, m)
        x = base + c
        if t0 is None:
            g.op("twin", x=c, y=x, n=g.ch(1, 3, 8))
            t0 = x
        g.info[x] = g.info[c]
        if g.p(.7):
            ps = g.info[c]["ps"]
            d = g.slot()
            g.op("csdefault", s=x, d=d)
            for _ in range(4):
                g.op("checkv", s=x, vals=[g.pvalue(p, .03, .2) for p in ps], tr=g.r.randrange(2))
            n = g.ch(1, 3)
            g.op("cssample", s=x, n=n, d=[g.slot() for _ in range(n)])
            if g.p(.3):
                g.op("ctxadd", s=x, ps=[g.num_param("new")], ds=[0], one=1)
                g.op("csdump", s=x)
                g.op("csdump", s=c)
        if g.p(.3):
            t.de(t.ser(x), 0)
        if g.p(.3) and not m:
            g.op("rel", s=x)
    return g.end()

# ---- what refers to something else ----------------------------------------------
def linked(seed):
    """expressions and bindings, through a handle map"""
    g = G(seed)
    t = T(g)
    k = g.ch("expr", "conf", "feat", "eval", "feval", "teval", "tconf")
    refs = []
    if k == "expr":
        ps = [g.param("abc"[i], kinds=("num", "cat", "ord", "disc", "str")) for i in range(g.r.randrange(1, 4))]
        s = g.as_slot(g.anyexpr(ps, g.r.randrange(3)) if g.p(.5) else g.boolean(ps, 2))
        refs = ps
    if k in ("conf", "eval", "feval"):
        cs = OB.mkctx(g, "cs")
        refs.append(cs)
        s = c = OB.mkbind(g, "conf", cs)
    if k in ("feat", "feval"):
        fs = OB.mkctx(g, "fs")
        refs.append(fs)
        s = f = OB.mkbind(g, "feat", fs)
    if k in ("tconf", "teval"):
        tr = OB.tree(g, 2, 2)
        ts = g.slot()
        g.op("mktspace", d=ts, name="ts", t=tr, dyn=0)
        g.hold("tspace", ts)
        refs.append(ts)
        s = c = g.slot()
        g.op("mktconf", d=c, s=ts, p=OB.rpos(g))
        g.hold("tconf", c)
    if k in ("eval", "feval", "teval"):
        os = OB.mkctx(g, "os")
        if g.p(.5):
            g.op("osobj", s=os, es=[g.as_slot(g.variable(g.r.choice(g.info[os]["ps"])))], ts=[0], one=1)
        refs.append(os)
        s = OB.mkbind(g, k, os, c=c, r=g.ch(0, 0, -5, 7), **({"f": f} if k == "feval" else {}))
    t.decorate([s] + refs)
    other = g.param("other")
    if g.p(.15) and k in ("conf", "feat", "eval"):
        # the space grows after the binding was made
        sp = {"conf": refs[0], "feat": refs[0], "eval": refs[-1]}[k]
        g.op("ctxadd", s=sp, ps=[g.num_param("late")], one=1, **({"ds": [0]} if k == "conf" else {}))
    b = t.ser(s)
    rb = [t.ser(r) for r in refs]
    if g.p(.3):
        t.de(b, 0)
    m = newmap(g)
    w = g.r.random()
    rbase = []
    for r, x in zip(refs, rb):
        if w < .15 and g.p(.5):
            continue                    # not in the map
        if w < .25 and g.p(.5):
            g.op("mset", m=m, k=["oid", r], v=g.ch(["o", other], ["o", s], I(3)), tr=0)
            rbase.append(None)
            continue
        if w < .35 and g.p(.5):         # the original itself
            g.op("mset", m=m, k=["oid", r], v=["o", r], tr=0)
            rbase.append(r)
            continue
        rbase.append(t.de(x, m) + r)
    x = t.de(b, m) + s
    g.op("mdump", m=m)
    if k == "expr":
        g.op("eparams", e=x)
    elif k in ("conf", "feat", "eval", "feval", "teval"):
        g.op("bcmps", bs=[s, x], g=0)
        if k in ("conf", "feat"):
            g.op("bset", b=x, by="i", x=0, v=g.val("ifs"), tr=1, g=0)
            g.op("bvals", b=x, g=1)
            g.op("bvals", b=s, g=1)
        else:
            g.op("evcmp", x=x, y=x)
            g.op("evcmp", x=s, y=x)
    else:
        g.op("tcnode", b=x, nb=50000)
        g.op("bcmps", bs=[s, x], g=0)
    if g.p(.3):
        t.de(b, m)                      # twice in the same map
    if g.p(.3):
        m2 = newmap(g)
        for r in refs:
            g.op("mset", m=m2, k=["oid", r], v=["o", r], tr=0)
        y = t.de(b, m2) + s
        if k != "expr":
            g.op("bcmps", bs=[s, y], g=0)
            g.op("bhashes", bs=[s, y], g=0)
    if g.p(.3):
        b2 = t.ser(x)
        m3 = newmap(g)
        for r in rbase:
            if r:
                g.op("mset", m=m3, k=["oid", r], v=["o", r], tr=0)
        t.de(b2, m3)
    return g.end()

# ---- tree spaces and tuners ---------------------------------------------------------
def tspaces(seed):
    g = G(seed)
    t = T(g)
    dyn = g.ch(0, 0, 1, 2)
    tr = OB.tree(g, g.r.randrange(3), g.r.randrange(1, 4), .6)
    s = g.slot()
    g.op("mktspace", d=s, name="ts", t=tr, dyn=dyn)
    g.hold("tspace", s)
    if g.p(.8):
        g.op("cssetrng", s=s, r=g.rng(g.ch("0", "1", "2", "3", *[str(g.r.randrange(4, 70))] * 2)))
    nb = 10000
    for _ in range(g.r.randrange(4)):
        nb += 20
        g.op("tsnode", s=s, p=OB.rpos(g, 4), nb=nb)
    t.decorate([s, tr])
    b = t.ser(s)
    for i in range(g.r.randrange(1, 3)):
        m = newmap(g) if g.p(.3) else 0
        vec = 1 if dyn and g.p(.85) else 0
        x = t.de(b, m, vec=vec) + s
        if i == 0 and not dyn:
            g.op("twin", x=s, y=x, n=6)
        for _ in range(3):
            nb += 20
            p = OB.rpos(g, 4)
            g.op("tsvals", s=x, p=p, nb=nb)
            nb += 20
            g.op("tsnode", s=x, p=p, nb=nb)
        nb += 20
        g.op("tssample", s=x, n=2, d=[g.slot(), g.slot()])
        c = g.slot()
        g.op("mktconf", d=c, s=x, p=OB.rpos(g))
        nb += 20
        g.op("tcnode", b=c, nb=nb)
        if g.p(.3):
            y = t.de(t.ser(x), 0, vec=1 if dyn else 0)
    return g.end()

def tuners(seed):
    g, tu, k, cs, os, ps, fts = OB.tuners(seed, random.Random(seed).randrange(24), part=True)
    t = T(g)
    t.decorate(sorted({x for l in g.held.values() for x in l if x not in g.held.get("tconf", []) + g.held.get("conf", [])}))
    ek = {"tuner": "eval", "ftuner": "feval", "ttuner": "teval"}[k]
    b = t.ser(tu)
    f = lambda x: {"f": x + g.r.choice(fts)} if k == "ftuner" else {}
    for i in range(g.r.randrange(1, 3)):
        m = newmap(g) if g.p(.3) else 0
        vec = 1 if g.p(.9) else 0
        base = t.de(b, m, vec=vec)
        x = base + tu
        n = g.ch(1, 2)
        ds = [g.slot() for _ in range(n)]
        g.op("ask", s=x, n=n, d=ds, cnt=0, **f(base))
        if k != "ftuner":
            for _ in range(2):
                e = g.slot()
                g.op("mkbind", d=e, k=ek, s=base + os, vals=[g.pvalue(p) for p in ps], tr=0, c=g.r.choice(ds), r=0)
                g.op("tell", s=x, es=[e])
                g.op("tuopt", s=x)
                g.op("tuhist", s=x)
        g.op("suggest", s=x, d=g.slot(), **f(base))
        if g.p(.3):
            t.de(t.ser(x), 0, vec=1)
        if g.p(.3) and not m:
            g.op("rel", s=x)
    g.op("tuhist", s=tu)
    return g.end()

# ---- what is cut short or damaged ---------------------------------------------------
def broken(seed, f=None):
    """before anything is read back: every prefix of it, damaged beginnings, too small buffers"""
    r = random.Random(seed * 7 + 1)
    f = f or r.choice([simple, simple, linked, linked, spaces, tspaces, tuners])
    out = []
    small = set()
    for o in f(seed):
        if o["a"] == "deser":
            kw = {k: o[k] for k in ("b", "m", "vec", "cb", "uvec", "dat") if k in o}
            for form in FORMS if r.random() < .3 else [r.choice(FORMS)]:
                out.append(dict(kw, a="trunc", form=form, max=500 if form == "mem" else 60, seed=r.randrange(1000)))
                out.append(dict(kw, a="damage", form=form))
            if o.get("m"):
                out.append({"a": "mdump", "m": o["m"]})
            o = dict(o, read=0)
        out.append(o)
        if o["a"] == "ser" and r.random() < .7:
            out.append({"a": "small", "s": o["s"], "cb": o["cb"], "max": 400, "seed": r.randrange(1000)})
    return out

def broken_tuners(seed):
    return broken(seed, tuners)

# ---- descriptors --------------------------------------------------------------------
BIG = 1 << 40
def schedule(g, n):
    """how a descriptor answers: a number of bytes (at most), 0 end, -1 again, -2 interrupted, -3 error, -4 again"""
    w = g.r.random()
    if w < .15:
        return []
    if w < .3:
        return [1] * g.r.randrange(1, 200)
    if w < .45:
        return [x for _ in range(g.r.randrange(1, 60)) for x in (-1, 1)]
    out = []
    for _ in range(g.r.randrange(1, 12)):
        out.append(g.ch(1, 2, 3, 12, 13, 14, g.r.randrange(1, 2 * n), g.r.randrange(1, 40), BIG, -1, -1, -1, -4, -2, -2))
    if g.p(.06):
        out.insert(g.r.randrange(len(out) + 1), g.ch(-3, 0))
    return out

def split(g, io):
    """the answers each call gets: an operation that would block returns after them"""
    n = 0
    while -1 in io and n < 14:
        k = io.index(-1) + 1
        yield io[:k]
        io = io[k:]
        n += 1
    yield io

def item(g):
    k = g.ch("param", "param", "map", "tree", "rng", "fs", "cs", "dist", "lit")
    if k == "param":
        return g.param(longname(g) if g.p(.2) else None, kinds=("num", "cat", "ord", "disc", "str"))
    if k == "map":
        s = newmap(g)
        for _ in range(g.r.randrange(0, 6)):
            g.op("mset", m=s, k=big(g) if g.p(.3) else g.val("nifbsx"), v=g.val("nifbsx"), tr=0)
        return s
    if k == "tree":
        return OB.tree(g, g.r.randrange(3))
    if k == "rng":
        return g.rng(g.ch("0", "1", "2"))
    if k == "dist":
        return g.dist(depth=2)
    if k == "lit":
        return g.expr_("lit", [big(g)], 2)
    return OB.mkctx(g, k, g.r.randrange(0, 4))

def streams(seed):
    g = G(seed)
    t = T(g)
    xs = [item(g) for _ in range(g.ch(1, 2, 3))]
    t.decorate(xs)
    blobs = []
    for s in xs:
        cb = g.ch(0, 0, 7)
        blobs.append((s, t.ser(s, cb), cb))
    todo = []
    for q in range(1, g.ch(2, 3, 4)):
        if g.p(.5):                          # written one after the other
            g.op("fdopen", q=q, qb=[], cut=-1)
            ops = []
            for _ in range(g.r.randrange(1, 4)):
                s, b, cb = g.r.choice(blobs)
                nb = g.ch(0, 1, 1)
                first = 1
                for io in split(g, schedule(g, 100)) if nb else [schedule(g, 100)]:
                    ops.append(dict(a="fdput", q=q, s=s, b=b, cb=cb, nb=nb, io=io, **({} if first else {"cont": 1})))
                    first = 0
                    if nb and g.p(.15):
                        ops.append(dict(a="fdwrong", q=q, s=s))
                ops += [dict(a="fdput", q=q, s=s, b=b, cb=cb, nb=nb, io=[], cont=1)] if nb else []
            todo.append(ops)
        else:
            k = [g.r.choice(blobs) for _ in range(g.r.randrange(1, 4))]
            g.op("fdopen", q=q, qb=[x[1] for x in k], tail=g.r.randrange(3), cut=-1 if g.p(.85) else g.r.randrange(0, 150))
            ops = []
            for s, b, cb in k:
                nb = g.ch(0, 1, 1)
                first = 1
                kw = dict(q=q, nb=nb, m=0, cb=g.r.randrange(2), vec=0, base=t.base(), read=1)
                for io in split(g, schedule(g, 100)) if nb else [schedule(g, 100)]:
                    ops.append(dict(a="fdget", io=io, **kw, **({} if first else {"cont": 1})))
                    first = 0
                    if nb and g.p(.15):
                        ops.append(dict(a="fdwrong", q=q, m=0))
                ops += [dict(a="fdget", io=[], cont=1, **kw)] if nb else []
            todo.append(ops)
    while any(todo):
        l = g.r.choice([x for x in todo if x])
        o = l.pop(0)
        g.op(o.pop("a"), **o)
    if g.p(.4):                              # the object changes while it is being written
        s, b, cb = g.r.choice(blobs)
        g.op("fdopen", q=9, qb=[], cut=-1)
        g.op("fdput", q=9, s=s, b=b, cb=cb, nb=1, io=g.ch([-1], [5, -1], [20, -1]))
        g.op("sud", s=s, v=g.r.randrange(1, 99999))
        if s in g.held.get("map", []):
            g.op("mset", m=s, k=S("late"), v=S("later"), tr=0)
        g.op("fdput", q=9, s=s, b=b, cb=cb, nb=1, io=g.ch([-1], [3, -1], []), cont=1)
        g.op("fdput", q=9, s=s, b=b, cb=cb, nb=1, io=[], cont=1)
    return g.end()

def scheduled(sched, per=40):
    """the schedules of model MCStream, on small objects"""
    out = []
    for i in range(0, len(sched), per):
        g = G(i)
        t = T(g)
        s = g.expr_("lit", [g.ch(NONE, Bo(1), I(5), S("ab"))], 2)
        b = t.ser(s, 0)
        for q, x in enumerate(sched[i:i + per], 1):
            big = lambda l: [BIG if e == 1000000 else e for e in l]
            nb = 1 if x["nb"] else 0
            if x["rd"]:
                g.op("fdopen", q=q, qb=[b, b], cut=-1)
            else:
                g.op("fdopen", q=q, qb=[], cut=-1)
            base = t.base()
            for k, c in enumerate(x["calls"]):
                kw = {"cont": 1} if k else {}
                if x["rd"]:
                    g.op("fdget", q=q, nb=nb, m=0, cb=0, vec=0, base=base, read=0, io=big(c), **kw)
                else:
                    g.op("fdput", q=q, s=s, b=b, cb=0, nb=nb, io=big(c), **kw)
            if x["rd"]:
                g.op("fdget", q=q, nb=nb, m=0, cb=0, vec=0, base=base, read=0, io=[], cont=1)
            else:
                g.op("fdput", q=q, s=s, b=b, cb=0, nb=nb, io=[], cont=1)
        out.append(g.end())
    return out
