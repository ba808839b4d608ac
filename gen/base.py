"""Operation lists (see lib/interp.py) made at random, from small pools chosen so that collisions happen."""
import random

STRS = ["", "A", "a", "aa", "ab", "b", "bar", "c", "d", "e", "foo", "foo2", "x", "y", "z"]
NONE, INACT = ["n"], ["x"]

def I(v):
    return ["i", v]

def F(n, k=0):
    while k > 0 and n % 2 == 0:
        n //= 2
        k -= 1
    return ["f", n, k]

def S(v):
    return ["s", v]

def Bo(v):
    return ["b", v]

FINF = 2**21

class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.ops = []
        self.n = 0
        self.held = {}      # kind -> slots the user holds
        self.info = {}      # slot -> what the generator knows

    # -- basics ----------------------------------------------------------------
    def op(self, a, **k):
        self.ops.append(dict(a=a, **k))

    def slot(self):
        self.n += 1
        return self.n

    def hold(self, kind, s, **info):
        self.held.setdefault(kind, []).append(s)
        self.info[s] = info
        return s

    def any(self, kind, default=None):
        l = self.held.get(kind)
        return self.r.choice(l) if l else default

    def p(self, x):
        return self.r.random() < x

    def ch(self, *xs):
        return self.r.choice(xs)

    def end(self):
        self.op("end", seed=self.r.randrange(1 << 20))
        self.rename()
        return self.ops

    def rename(self):
        """names that are long, alike but for their end or start, prefixes of one another, or alike but for case"""
        k = self.r.randrange(10)
        if k >= 4:
            return
        seen = {}
        n = self.ch(70, 70, 270, 1100)
        long = "x" * n, "y" * n
        def to(n):
            if n not in seen:
                i = len(seen)
                seen[n] = [long[0] + n, n + long[1], "z" * i, "".join("kK"[i >> b & 1] for b in range(7))][k]
            return seen[n]
        for o in self.ops:
            for f in ("name", "x"):
                if isinstance(o.get(f), str):
                    o[f] = to(o[f])

    # -- values ----------------------------------------------------------------
    def int_(self):
        if self.p(.02):
            return I(self.ch(-1000010, 1000010))
        return I(self.r.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 12, 20]))

    def flo(self):
        return F(self.r.choice([-9, -4, -2, -1, 0, 1, 2, 3, 4, 6, 8, 10, 13]), self.r.choice([0, 1, 2]))

    def val(self, types="nifbs"):
        t = self.r.choice(types)
        return {"n": lambda: NONE, "i": self.int_, "f": self.flo, "b": lambda: Bo(self.r.randrange(2)),
                "s": lambda: S(self.r.choice(STRS)), "x": lambda: INACT}[t]()

    def name(self):
        return self.r.choice(["p", "q", "r", "s", "t", "u", "v", "w"]) + self.r.choice(["", "1"])

    # -- parameters ------------------------------------------------------------
    def num_param(self, name=None, dt=None, good=True):
        dt = dt or self.ch("i", "i", "f")
        s = self.slot()
        mk = (lambda n: I(n)) if dt == "i" else (lambda n: F(n, 1))
        lo = self.r.randrange(-4, 5)
        hi = lo + self.r.randrange(1, 8)
        q = self.r.choice([0, 0, 0, 1, 2]) if hi - lo >= 2 else 0
        df = self.r.randrange(lo, hi)
        o = dict(d=s, k="num", name=name or self.name(), dt=dt, lo=mk(lo), hi=mk(hi), q=mk(q), df=mk(df), g=self.r.randrange(2))
        if not good:
            w = self.r.randrange(7)
            if w == 0:
                o["hi"] = mk(lo - self.r.randrange(0, 3))
            elif w == 1:
                o["q"] = mk(-1)
            elif w == 2:
                o["q"] = mk(hi - lo + self.r.randrange(0, 3))
            elif w == 3:
                o["df"] = mk(hi + self.r.randrange(0, 2))
            elif w == 4:
                o["df"] = mk(lo - self.r.randrange(0, 2))
            elif w == 5:
                o["hi"] = mk(lo)
                o["df"] = mk(lo)
        self.op("mkparam", **o)
        return self.hold("param", s, pk="num", **o)

    def enum_param(self, k=None, name=None, good=True, types="ifbsn", n=None):
        k = k or self.ch("cat", "ord", "disc")
        s = self.slot()
        n = n or self.r.randrange(1, 6)
        vals = []
        while len(vals) < n:
            v = self.val("if" if k == "disc" else types)
            if v not in vals:
                vals.append(v)
        o = dict(d=s, k=k, name=name or self.name(), vals=vals, di=self.r.randrange(n))
        if not good:
            w = self.r.randrange(4)
            if w == 0:
                o["vals"] = vals + [self.r.choice(vals)]
            elif w == 1:
                o["di"] = n + self.r.randrange(2)
            elif w == 2:
                vals[self.r.randrange(n)] = self.ch(INACT, ["s", "a"] if k == "disc" else INACT)
            else:
                o["vals"] = []
                o["di"] = 0
        self.op("mkparam", **o)
        return self.hold("param", s, pk=k, **o)

    def str_param(self, name=None):
        s = self.slot()
        o = dict(d=s, k="str", name=name or self.name())
        self.op("mkparam", **o)
        return self.hold("param", s, pk="str", **o)

    def param(self, name=None, kinds=("num", "num", "cat", "ord", "disc"), **kw):
        k = self.r.choice(kinds)
        if k == "num":
            return self.num_param(name, **kw)
        if k == "str":
            return self.str_param(name)
        return self.enum_param(k, name, **kw)

    def pvalue(self, p, wrong=0.0, inact=0.0):
        """a value for parameter p, mostly of its domain"""
        if self.p(inact):
            return INACT
        if self.p(wrong):
            return self.wrong(p)
        i = self.info[p]
        if i["pk"] == "str":
            return S(self.r.choice(STRS))
        if i["pk"] == "num":
            lo, hi = i["lo"], i["hi"]
            if i["dt"] == "i":
                if abs(lo[1]) > 900000:
                    return self.ch(lo, I(min(hi[1] - 1, 0)))
                return I(self.r.randrange(lo[1], max(min(hi[1], lo[1] + 30), lo[1] + 1)))
            k = 2
            a, b = (lo[1] << (k - lo[2])), (hi[1] << (k - hi[2]))
            return F(self.r.randrange(a, max(b, a + 1)), k)
        return self.r.choice(i["vals"]) if i["vals"] else NONE

    def wrong(self, p):
        i = self.info[p]
        if i["pk"] == "num":
            lo, hi = i["lo"], i["hi"]
            if i["dt"] == "i":
                near = [hi, I(max(-1000010, lo[1] - 1)), I(min(1000010, hi[1] + 1)), F(lo[1] if abs(lo[1]) < 900000 else 0), I(-12), I(20)]
            else:
                near = [hi, F(lo[1] * 2 - 1, lo[2] + 1) if lo[2] < 3 else lo, I(lo[1] >> lo[2]), F(40)]
            return self.r.choice(near + [NONE, INACT, S("a"), Bo(1)])
        return self.val("nifbsx")

    # -- expressions -----------------------------------------------------------
    def expr_(self, t, nodes, f=None):
        s = self.slot()
        self.op("mkexpr", d=s, t=t, n=nodes, f=self.r.randrange(2) if f is None else f)
        return self.hold("expr", s)

    def node(self, s):
        return ["o", s]

    def literal(self, v):
        return v if self.p(.7) else self.node(self.expr_("lit", [v], 2))

    def variable(self, p):
        return self.node(p) if self.p(.7) else self.node(self.expr_("var", [self.node(p)], 2))

    def boolean(self, ps, depth, wrong=.02):
        """a boolean expression over ps, as a node"""
        r = self.r.random()
        if depth > 0 and r < .35:
            return self.node(self.expr_(self.ch("and", "or", "or"), [self.boolean(ps, depth - 1, wrong), self.boolean(ps, depth - 1, wrong)]))
        if depth > 0 and r < .45:
            return self.node(self.expr_("not", [self.boolean(ps, depth - 1, wrong)]))
        p = self.r.choice(ps)
        i = self.info[p]
        pv = lambda: self.literal(self.pvalue(p, wrong))
        v = self.variable(p)
        if r < .6 and i["pk"] != "str":
            n = self.r.randrange(0, 4)
            l = self.node(self.expr_("list", [pv() for _ in range(n)]))
            return self.node(self.expr_("in", [v, l]))
        t = self.r.choice(["eq", "ne", "eq", "lt", "gt", "le", "ge"])
        if i["pk"] == "cat" and self.p(1 - wrong):
            t = self.ch("eq", "ne")
        if i["pk"] in ("num", "disc") and self.p(.25):
            w = self.number([q for q in ps if self.info[q]["pk"] in ("num", "disc")], depth - 1)
        else:
            w = pv()
        return self.node(self.expr_(t, [v, w] if self.p(.7) else [w, v]))

    def number(self, ps, depth):
        r = self.r.random()
        if depth > 0 and r < .6:
            return self.node(self.expr_(self.r.choice(["add", "sub", "mul", "div", "mod"]),
                                        [self.number(ps, depth - 1), self.number(ps, depth - 1)]))
        if depth > 0 and r < .7:
            return self.node(self.expr_(self.ch("pos", "neg"), [self.number(ps, depth - 1)]))
        if ps and r < .9:
            return self.variable(self.r.choice(ps))
        return self.literal(self.val("if"))

    def anyexpr(self, ps, depth):
        """any expression, well typed or not"""
        t = self.r.choice(["or", "and", "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "mod", "pos", "neg",
                           "not", "in", "in", "list"])
        leaf = lambda: (self.variable(self.r.choice(ps)) if ps and self.p(.5) else self.literal(self.val("nifbs")))
        sub = lambda: self.anyexpr(ps, depth - 1) if depth > 0 and self.p(.6) else leaf()
        if t == "in":
            if self.p(.9):
                return self.node(self.expr_("in", [sub(), self.node(self.expr_("list", [sub() for _ in range(self.r.randrange(4))]))]))
            return self.node(self.expr_("in", [sub(), sub()]))
        if t == "list":
            return self.node(self.expr_("list", [sub() for _ in range(self.r.randrange(4))]))
        if t in ("pos", "neg", "not"):
            return self.node(self.expr_(t, [sub()]))
        return self.node(self.expr_(t, [sub(), sub()]))

    def as_slot(self, nd):
        """a slot for a node that may be a bare literal or parameter"""
        if nd[0] == "o" and nd[1] in self.held.get("expr", []):
            return nd[1]
        if nd[0] == "o":
            return self.expr_("var", [nd], 2)
        return self.expr_("lit", [nd], 2)

    # -- contexts --------------------------------------------------------------
    def ctx(self, k, ps, name=None, each=False):
        s = self.slot()
        self.op("mkctx", d=s, k=k, name=name or self.name())
        self.hold(k, s, ps=list(ps))
        if ps:
            if each:
                for p in ps:
                    self.op("ctxadd", s=s, ps=[p], one=1, **({"ds": [0]} if k == "cs" else {}))
            else:
                self.op("ctxadd", s=s, ps=list(ps), **({"ds": []} if k == "cs" else {}))
        return s

    def rng(self, k=None, seed=None):
        s = self.slot()
        k = k or self.ch("script", "0", "1", "2", "3")
        kw = {} if k == "script" else {"seed": self.r.randrange(1, 1000) if seed is None else seed}
        self.op("mkrng", d=s, k=k, **kw)
        return self.hold("rng", s)

    def script(self):
        """an adversarial random stream: extremes and arbitrary words, then a fixed generator"""
        pool = [0, 1, 2**32 - 1, 2**32 - 2, 2**31, 2**31 - 1, 2**16]
        sc = [self.r.choice(pool) if self.p(.6) else self.r.randrange(2**32) for _ in range(self.r.randrange(0, 24))]
        self.op("script", sc=sc, seed=self.r.randrange(1, 1 << 16))

    # -- distributions ---------------------------------------------------------
    def mk(self, dt):
        return (lambda n, k=0: I(n)) if dt == "i" else (lambda n, k=1: F(n, k))

    def uni(self, dt=None, lo=None, hi=None, good=True):
        dt = dt or self.ch("i", "f")
        mk = self.mk(dt)
        s = self.slot()
        sc = 1 if self.p(.2) else 0
        if lo is None:
            lo = self.r.randrange(1, 6) if sc else self.r.randrange(-6, 6)
            hi = lo + self.r.randrange(1, 9)
        elif lo <= 0:
            sc = 0
        q = self.r.choice([0, 0, 1, 2, 3]) if hi - lo >= 3 else 0
        o = dict(d=s, k="uni", dt=dt, lo=mk(lo), hi=mk(hi), sc=sc, q=mk(q), g=self.r.randrange(2))
        if not good:
            w = self.r.randrange(6)
            if w == 0:
                o["hi"] = mk(lo - self.r.randrange(2))
            elif w == 1:
                o["q"] = mk(-1)
            elif w == 2:
                o["q"] = mk(hi - lo + self.r.randrange(2))
            elif w == 3:
                o["lo"], o["sc"] = mk(self.ch(0, -1, 1)), 1
                o["hi"] = mk(2)
                o["q"] = mk(0)
            elif w == 4:
                o["sc"] = self.ch(2, -1)
            else:
                o["dt"], o["g"] = "x", 0
        self.op("mkdist", **o)
        return self.hold("dist", s, dim=1, types=[dt], dk="uni")

    def nor(self, dt=None, mu=None, sigma=None, good=True):
        dt = dt or self.ch("i", "f")
        mk = self.mk(dt)
        s = self.slot()
        sc = 1 if self.p(.3) else 0
        mu = F(self.r.randrange(-3, 4) if not sc else self.r.randrange(-1, 3)) if mu is None else mu
        sigma = F(self.r.choice([1, 2, 4, 9]), 1 if not sc else 2) if sigma is None else sigma
        o = dict(d=s, k="nor", dt=dt, mu=mu, sigma=sigma, sc=sc, q=mk(self.r.choice([0, 0, 1, 2, 3])), g=self.r.randrange(2))
        if not good:
            w = self.r.randrange(3)
            if w == 0:
                o["q"] = mk(-1)
            elif w == 1:
                o["sc"] = 2
            else:
                o["dt"], o["g"] = "x", 0
        self.op("mkdist", **o)
        return self.hold("dist", s, dim=1, types=[dt], dk="nor")

    def rou(self, n=None, good=True):
        s = self.slot()
        n = n or self.r.randrange(1, 7)
        ws = [F(self.r.choice([0, 1, 1, 2, 3, 5]), self.r.choice([0, 1])) for _ in range(n)]
        if all(w[1] == 0 for w in ws):
            ws[self.r.randrange(n)] = F(1)
        if not good:
            w = self.r.randrange(3)
            ws = [F(0)] * n if w == 0 else [] if w == 1 else ws[:-1] + [F(-1)]
        self.op("mkdist", d=s, k="rou", ws=ws)
        return self.hold("dist", s, dim=1, types=["i"], dk="rou")

    def dist1(self, dt=None, good=True):
        """one dimensional, not composed"""
        k = self.ch("uni", "uni", "nor", "rou") if dt != "f" else self.ch("uni", "uni", "nor")
        return self.uni(dt, good=good) if k == "uni" else self.nor(dt, good=good) if k == "nor" else self.rou(good=good)

    def mul(self, ds, good=True):
        s = self.slot()
        self.op("mkdist", d=s, k="mul", ds=ds)
        return self.hold("dist", s, dim=sum(self.info[d]["dim"] for d in ds if d), types=sum((self.info[d]["types"] for d in ds if d), []), dk="mul")

    def mix(self, ds, good=True):
        s = self.slot()
        ws = [F(self.r.choice([0, 1, 2, 3])) for _ in ds]
        if ws and all(w[1] == 0 for w in ws):
            ws[self.r.randrange(len(ws))] = F(1)
        if not good and ws:
            ws = [F(0)] * len(ds) if self.p(.5) else ws[:-1] + [F(-1)]
        self.op("mkdist", d=s, k="mix", ds=ds, ws=ws)
        return self.hold("dist", s, dim=self.info[ds[0]]["dim"] if ds and ds[0] else 1,
                         types=self.info[ds[0]]["types"] if ds and ds[0] else ["i"], dk="mix")

    def dist(self, types=None, depth=2):
        """a well formed distribution, of the given component types if any"""
        if types is None:
            types = [self.ch("i", "f") for _ in range(self.ch(1, 1, 1, 2, 3))]
        if len(types) == 1:
            if depth > 0 and self.p(.25):
                return self.mix(self.several(types, depth))
            if depth > 0 and self.p(.1):
                return self.mul([self.dist(types, depth - 1)])
            return self.dist1(types[0])
        if depth > 0 and self.p(.3):
            return self.mix(self.several(types, depth))
        k = self.r.randrange(1, len(types))
        parts = [[t] for t in types] if self.p(.6) else [types[:k], types[k:]]
        if all(p == parts[0] for p in parts) and self.p(.2):
            return self.mul([self.dist(parts[0], depth - 1)] * len(parts))
        return self.mul([self.dist(t, depth - 1) for t in parts])

    def several(self, types, depth):
        """components of a mixture, possibly the same one several times"""
        l = [self.dist(types, depth - 1) for _ in range(self.r.randrange(1, 4))]
        return l if self.p(.8) else (l + l[:1] * 2)[:4]

    def ptype(self, p):
        i = self.info[p]
        return i["dt"] if i["pk"] == "num" else "i"

    def dist_for(self, p):
        """a distribution that fits the domain of p, possibly larger or smaller"""
        i = self.info[p]
        t = self.ptype(p)
        if i["pk"] == "num":
            lo, hi = i["lo"][1], i["hi"][1]
            if t == "f":
                lo, hi = lo << (1 - i["lo"][2]), hi << (1 - i["hi"][2])
        else:
            lo, hi = 0, len(i["vals"])
        w = self.r.random()
        if w < .3:
            return self.uni(t, lo, hi)
        if w < .5 and hi - lo > 1:
            a = self.r.randrange(lo, hi - 1)
            return self.uni(t, a, self.r.randrange(a + 1, hi + 1))
        if w < .65:
            return self.uni(t, lo - self.r.randrange(3), hi + self.r.randrange(3))
        if w < .75 and t == "i" and i["pk"] != "num":
            return self.rou(max(1, hi + self.r.randrange(-1, 2)))
        if w < .85:
            return self.nor(t, F(lo + hi, 1 if t == "i" else 2), F(max(1, hi - lo), 1 if t == "i" else 2))
        if w < .92:
            return self.mix([self.uni(t, lo, hi) for _ in range(self.r.randrange(1, 3))])
        return self.dist([t])
