"""Small worlds for spec/MCRun.tla: objects made first (pre), an alphabet of operations, and what to look at
after each of them.  TLC finds everything that can happen; the walks made of it are replayed on the library."""
from itertools import combinations, permutations, product
from gen.base import *
from gen.tour import tours

class M:
    def __init__(self, depth=99, mem=1):
        self.pre, self.alpha, self.look, self.n = [], [], [], 0
        self.depth, self.mem = depth, mem
        self.copy = 0               # what is also looked at in a copy

    def slot(self):
        self.n += 1
        return self.n

    def mk(self, a, **k):
        d = self.slot()
        self.pre.append(dict(a=a, d=d, **k))
        return d

    def do(self, a, **k):
        self.pre.append(dict(a=a, **k))

    def can(self, a, **k):
        self.alpha.append(dict(a=a, **k))

    def see(self, a, **k):
        self.look.append(dict(a=a, **k))

    def script(self):
        return {"pre": self.pre, "alpha": self.alpha, "depth": self.depth, "mem": self.mem,
                "held": int(any("need" in x for x in self.look))}

    def walks(self, edges, limit=200):
        """what the walks through all transitions are on the library"""
        out, seen = [], set()
        held = {tuple(e["t"]): set(e["h"]) for e in edges if "h" in e}
        for i, w in enumerate(tours(edges, limit, True)):
            t, fresh, nb = [dict(o) for o in self.pre], 1000, 0
            for y, (j, changed, state) in enumerate(w):
                o = {k: v for k, v in self.alpha[j - 1].items() if k not in ("need", "free", "max", "hmax")}
                t.append(o)
                for x in self.look if changed or y == len(w) - 1 else []:
                    if not set(x.get("need", ())) <= held.get(state, set()):
                        continue
                    x = {k: v for k, v in x.items() if k != "need"}
                    if x["a"] == "csdefault":
                        fresh += 1
                        t += [dict(x, d=fresh), {"a": "rel", "s": fresh}]
                    else:
                        t.append(dict(x))
                if self.copy and state not in seen:
                    seen.add(state)
                    nb += 1
                    t += self.copied(nb, len(seen))
            out.append(t + [{"a": "end", "seed": i}])
        return out

    def copied(self, nb, k):
        """a look at a copy, written and read back"""
        base, s = nb * 100000, self.copy
        t = [dict(a="ser", s=s, b=nb, cb=0), dict(a="deser", b=nb, base=base, form=("mem", "file", "fd")[k % 3], m=0, cb=0, vec=1)]
        for x in self.look:
            if x["a"] in ("csdefault", "tfreq") or x.get("f") or "need" in x or x.get("b", s) != s or x.get("s", s) != s or "bs" in x:
                continue
            t.append({y: v + base if y in ("s", "m", "b") and v else v for y, v in x.items()})
        return t + [dict(a="rel", s=base + s)]

    # -- things several worlds have ------------------------------------------------
    def num(self, name, lo=0, hi=3, df=0, dt="i"):
        v = I if dt == "i" else F
        return self.mk("mkparam", k="num", name=name, dt=dt, lo=v(lo), hi=v(hi), q=v(0), df=v(df), g=0)

    def expr(self, t, *n):
        return self.mk("mkexpr", t=t, n=list(n), f=2 if t in ("var", "lit") else 0)

    def ctx(self, k, ps=()):
        c = self.mk("mkctx", k=k, name="c")
        if ps:
            self.do("ctxadd", s=c, ps=list(ps), ds=[])
        return c

    def uni(self, hi=3):
        return self.mk("mkdist", k="uni", dt="i", lo=I(0), hi=I(hi), sc=0, q=I(0), g=0)

def conditions(n=3, pairs=True, defaults=(0, 1, 1, 1, 1)):
    """every way to put conditions on n parameters: each condition asks some parameters to be 1"""
    m = M()
    ps = [m.num("pqrst"[i], df=defaults[i]) for i in range(n)]
    eq = [m.expr("eq", ["o", p], I(1)) for p in ps]
    c = m.ctx("cs", ps)
    sets = [[e] for e in range(n)] + ([list(x) for k in range(2, n + 1) for x in combinations(range(n), k)] if pairs else [])
    for x in sets:
        e = eq[x[0]]
        for y in x[1:]:
            e = m.expr("and", ["o", e], ["o", eq[y]])
        for i in range(n):
            m.can("cscond", s=c, i=i, e=e)
    m.main = c
    m.see("csdump", s=c)
    m.see("csdefault", s=c)
    return m

def clauses():
    """conditions, forbidden clauses and parameters added in any order"""
    m = M()
    p, q, r = m.num("p", df=1), m.num("q", df=1), m.num("r", df=0)
    c = m.ctx("cs", [p])
    alien = m.num("z")
    m.can("ctxadd", s=c, ps=[q], ds=[0], one=1)
    m.can("ctxadd", s=c, ps=[r], ds=[0], one=1)
    m.can("ctxadd", s=c, ps=[r, q], ds=[])
    e1 = m.expr("eq", ["o", p], I(0))
    e2 = m.expr("eq", ["o", q], I(2))
    e3 = m.expr("eq", ["o", q], I(1))
    e4 = m.expr("eq", ["o", alien], I(1))
    m.can("cscond", s=c, i=1, e=e1)
    m.can("cscond", s=c, i=2, e=e3)
    m.can("cscond", s=c, i=0, e=e4)
    for e in (e1, e2, e4):
        m.can("csforb", s=c, es=[e], one=1)
    m.can("csforb", s=c, es=[e3, e1])
    # a clause is added once only: bounded by what the space says of duplicates, else by depth
    m.depth = 5
    m.main = c
    m.see("csdump", s=c)
    m.see("csdefault", s=c)
    for v in ([I(0)], [I(0), I(2)], [I(1), I(1), INACT], [I(0), I(2), I(1)], [I(1), INACT, INACT], [I(0), INACT, I(1)]):
        m.see("checkv", s=c, vals=v, tr=0)
    return m

def joint(n=3, deep=False):
    """every way to give n parameters joint distributions"""
    m = M()
    ps = [m.num("pqrs"[i]) for i in range(n)]
    u = m.uni()
    ds = [u] + [m.mk("mkdist", k="mul", ds=[u] * k) for k in range(2, n + 1)]
    d2 = m.mk("mkdist", k="mul", ds=[u, u])
    c = m.ctx("cs", ps)
    for d, k in [(ds[i], i + 1) for i in range(n)] + [(d2, 2)]:
        for ix in permutations(range(n), k):
            if k == n and not deep and ix[0] > ix[-1]:
                continue
            m.can("cssetdist", s=c, dist=d, ix=list(ix))
    m.can("cssetdist", s=c, dist=ds[1], ix=[0, 0])
    if n == 3:
        m.can("cssetdist", s=c, dist=ds[2], ix=[1, 0, 1])
    m.can("cssetdist", s=c, dist=ds[1], ix=[0, n])
    m.main = c
    m.see("csdump", s=c)
    m.look.append({"a": "csdefault", "s": c})
    return m

def maps(depth=3):
    """a map of few keys, some of them looking alike"""
    m = M(mem=0)
    p = m.num("p")
    e = m.expr("eq", ["o", p], I(1))
    x = m.mk("mkmap")
    keys = [I(1), F(1), S("1"), Bo(1), ["o", p]]
    vals = [I(1), S("v"), ["o", e]]
    for k in keys:
        for v in vals:
            m.can("mset", m=x, k=k, v=v, tr=0)
        m.can("mdel", m=x, k=k)
    m.can("mclear", m=x)
    m.main = x
    m.see("mdump", m=x)
    for k in keys:
        m.see("mget", m=x, k=k)
    m.depth = depth
    return m

def forest(n=4):
    """trees put under each other in every way"""
    m = M()
    ts = [m.mk("mktree", ar=a, v=I(i)) for i, a in enumerate((2, 1, 2, 0)[:n])]
    for t, a in zip(ts, (2, 1, 2, 0)):
        for i in range(a):
            for c in ts:
                m.can("tset", s=t, i=i, c=c, need=[t, c])
    m.can("tset", s=ts[0], i=2, c=ts[1], need=[ts[0], ts[1]])
    m.can("tset", s=ts[0], i=0, c=0, need=[ts[0]])
    for t in ts[:2]:
        m.can("rel", s=t, need=[t])
    for t in ts:
        m.see("tinfo", s=t, need=[t])
    return m

def told(kind="tuner", depth=4):
    """a tuner told about points of a grid with two objectives, in every order"""
    m = M(depth=depth, mem=0)
    p, q = m.num("p"), m.num("q")
    x = m.num("x")
    cs = m.ctx("cs", [x])
    f = fs = None
    if kind == "ftuner":
        y = m.num("y")
        fs = m.ctx("fs", [y])
        f = [m.mk("mkbind", k="feat", s=fs, vals=[I(i)], tr=0) for i in range(2)]
    os = m.ctx("os", [p, q])
    e1, e2 = m.expr("var", ["o", p]), m.expr("var", ["o", q])
    m.do("osobj", s=os, es=[e1, e2], ts=[0, 1])
    conf = [m.mk("mkbind", k="conf", s=cs, vals=[I(i)], tr=0) for i in range(2)]
    pts = [(1, 1, 0), (0, 1, 0), (1, 2, 0), (0, 0, 0), (1, 1, 0), (0, 3, -3)] if kind == "tuner" else [(1, 1, 0), (0, 1, 0), (0, 2, 0)]
    evs = []
    for i, (a, b, r) in enumerate(pts):
        if kind == "ftuner":
            evs += [m.mk("mkbind", k="feval", s=os, vals=[I(a), I(b)], tr=0, c=conf[i % 2], r=r, f=z) for z in f]
        else:
            evs.append(m.mk("mkbind", k="eval", s=os, vals=[I(a), I(b)], tr=0, c=conf[i % 2], r=r))
    t = m.mk("mktuner", k=kind, name="t", cs=cs, os=os, **({"fs": fs} if fs else {}))
    for e in evs:
        m.can("tell", s=t, es=[e])
    m.can("tell", s=t, es=[evs[0], evs[1]])
    m.main = t
    for o in ("tuopt", "tuhist"):
        for z in (f + [0] if f else [None]):
            m.see(o, s=t, **({"f": z} if f else {}))
    return m

def holders():
    """who keeps what alive: an expression, a space, a configuration, a map"""
    m = M(mem=0)
    p = m.num("p")
    e = m.expr("eq", ["o", p], I(1))
    q = m.num("q")
    c = m.ctx("cs", [p, q])
    m.do("cscond", s=c, i=1, e=e)
    k = m.mk("mkbind", k="conf", s=c, vals=[I(1), I(1)], tr=0)
    x = m.mk("mkmap")
    for i, s in enumerate((p, e, q, c, k, x)):
        m.do("cb", s=s, c=2 * i + 1)
        m.do("cb", s=s, c=2 * i + 2)
    for s in (p, e, c, k, x):
        m.can("ret", s=s, need=[s], max=2)
    for s in (p, e, q, c, k, x):
        m.can("rel", s=s, need=[s])
    m.can("mset", m=x, k=I(1), v=["o", e], tr=0, need=[x, e])
    m.can("mset", m=x, k=I(1), v=["o", k], tr=0, need=[x, k])
    m.can("mset", m=x, k=["o", c], v=I(1), tr=0, need=[x, c])
    m.can("mclear", m=x, need=[x])
    return m

def copying(m):
    """that world, and a copy of its main object in every state of it"""
    m.copy = m.main
    return m

def weights():
    """weights and biases given before and after trees are put together, and how often each branch is then drawn"""
    m = M(mem=0)
    r = m.mk("mkrng", k="0", seed=7)
    t, a, b, g = [m.mk("mktree", ar=n, v=I(i)) for i, n in enumerate((2, 1, 0, 0))]
    for s, i, c in ((t, 0, a), (t, 1, b), (a, 0, g)):
        m.can("tset", s=s, i=i, c=c)
    for o, s, ws in (("tw", t, (0, 1)), ("tw", a, (1, 3)), ("tb", a, (0, 1, 2)), ("tw", g, (0, 1)), ("tb", g, (1, 2))):
        for w in ws:
            m.can(o, s=s, w=F(w))
    m.can("tw", s=t, w=F(-1))
    m.can("tb", s=a, w=F(-1))
    m.main = t
    for s in (t, a, g):
        m.see("tinfo", s=s)
        m.see("tfreq", s=s, r=r, n=2048, tol=int(3.2 * 2048 ** .5))
    return m

def bindings(kind="conf"):
    """two bindings of one context set in every way"""
    m = M(mem=0)
    p, q = m.num("p"), m.num("q", dt="f")
    z = m.num("z")
    c = m.ctx({"conf": "cs", "feat": "fs", "eval": "os"}[kind], [p, q])
    kw = {}
    if kind == "eval":
        cs = m.ctx("cs", [z])
        kw = dict(c=m.mk("mkbind", k="conf", s=cs, vals=[I(0)], tr=0), r=0)
    bs = [m.mk("mkbind", k=kind, s=c, vals=[I(0), F(0)], tr=0, **kw) for _ in range(2)]
    for b, by in zip(bs, ("ip", "ni")):
        for i, (x, n, vs) in enumerate(((p, "p", (I(0), I(2), INACT)), (q, "q", (F(0), F(1), I(0))))):
            for j, v in enumerate(vs):
                w = by[j % 2]
                m.can("bset", b=b, by=w, x={"i": i, "n": n, "p": x}[w], v=v, tr=0, g=j % 2)
    m.can("bset", b=bs[0], by="i", x=2, v=I(1), tr=0, g=0)
    m.can("bset", b=bs[0], by="n", x="z", v=I(1), tr=0, g=1)
    m.can("bset", b=bs[1], by="p", x=z, v=I(1), tr=0, g=0)
    m.can("bset", b=bs[0], by="i", x=0, v=I(7), tr=1, g=0)
    m.can("bsets", b=bs[1], vals=[I(2), F(1)], tr=0)
    m.can("bsets", b=bs[1], vals=[I(2)], tr=0)
    m.can("bsets", b=bs[0], vals=[I(1), F(9)], tr=1)
    if kind == "eval":
        m.can("evres", b=bs[0], r=-3)
        m.can("evres", b=bs[0], r=0)
    m.main = bs[0]
    for i, b in enumerate(bs):
        m.see("bvals", b=b, g=i)
        m.see("bcheck", b=b)
        m.see("bget", b=b, by="n", x="q", g=i)
    m.see("bcmps", bs=bs, g=0)
    m.see("bhashes", bs=bs, g=1)
    return m

def spots(dyn=0, depth=99):
    """positions of a tree space whose tree grows, and configurations made of them"""
    m = M(mem=0, depth=depth)
    t, a, b, g = [m.mk("mktree", ar=n, v=v) for n, v in ((2, I(0)), (1, S("a")), (0, F(2)), (0, Bo(1)))]
    if dyn:
        m.do("tset", s=t, i=0, c=a)
    s = m.mk("mktspace", name="ts", t=t, dyn=dyn)
    ks = [m.slot(), m.slot()]
    for x, i, c in ((t, 0, a), (t, 1, b), (a, 0, g)):
        m.can("tset", s=x, i=i, c=c)
    for j, p in enumerate(([], [0], [1], [0, 0], [2])):
        for k in ks:
            if k == ks[0] or p in ([0], [0, 0]):
                m.can("mktconf", d=k, s=s, p=p, free=[k])
    for k in ks:
        m.can("rel", s=k, need=[k])
    m.main = s
    for j, p in enumerate(([], [0], [1], [0, 0], [1, 0], [0, 0, 0], [2])):
        nb = 20000 + 100 * j
        m.see("tscheck", s=s, p=p, nb=nb)
        m.see("tsvals", s=s, p=p, nb=nb)
        m.see("tsnode", s=s, p=p, nb=nb)
    for k in ks:
        for o in ("tcinfo", "tccheck", "tcvals", "tcnode"):
            m.see(o, b=k, nb=30000, need=[k])
    return m
