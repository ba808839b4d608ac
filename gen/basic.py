"""Parameters and expressions."""
from gen.base import *

def params(seed, n=6):
    """one trace: creation of good and bad parameters, domain checks, validation, ordering"""
    g = G(seed)
    ext = [I(1000010), I(1000009), I(1000008), I(-1000010), I(-1000009), I(-1000008)]
    for _ in range(n):
        w = g.r.random()
        if w < .08:      # extreme integer bounds
            s = g.slot()
            lo, hi = g.ch((ext[3], I(4)), (ext[4], I(-2)), (I(0), ext[0]), (I(0), ext[1]), (ext[3], ext[0]))
            df = g.ch(lo, I(0) if lo[1] < 0 < hi[1] or lo[1] == 0 else lo, hi)
            o = dict(d=s, k="num", name=g.name(), dt="i", lo=lo, hi=hi, q=I(0), df=df, g=g.r.randrange(2))
            g.op("mkparam", **o)
            p = g.hold("param", s, pk="num", **o)
        else:
            p = g.param(kinds=("num", "num", "cat", "ord", "disc", "str"), **({"good": False} if w < .35 and w > .08 and g.p(.9) else {})) \
                if g.p(.9) else g.str_param()
        i = g.info[p]
        g.op("pinfo", p=p)
        vs = [g.pvalue(p, .3) for _ in range(6)] + [g.wrong(p) for _ in range(4)]
        if i["pk"] == "num":
            vs += [i["lo"], i["hi"], i["df"]]
            if i["dt"] == "i":
                vs += [g.r.choice(ext), ["I", "4294967296"], ["I", "-4294967297"]][:1]
            else:
                vs += [F(FINF), F(-FINF)]
        elif i["pk"] != "str":
            vs += i["vals"][:3] + [g.val("nifbsx") for _ in range(3)]
            # same content, other type
            for v in i["vals"][:2]:
                if v[0] == "i":
                    vs.append(F(v[1]))
                elif v[0] == "f" and v[2] == 0:
                    vs.append(I(v[1]))
                elif v[0] == "b":
                    vs.append(I(v[1]))
                elif v[0] == "s":
                    vs.append(S(v[1] + "x") if v[1] + "x" in STRS else S("A"))
        else:
            vs += [S("long" * 10)]
        g.r.shuffle(vs)
        g.op("pcheck", p=p, vs=vs, b=g.r.randrange(2))
        g.op("pval", p=p, vs=vs, b=g.r.randrange(2), **({"nt": 1, "kept": int(g.info[p]["pk"] == "str")} if g.p(.4) else {}))
        if i["pk"] in ("cat", "ord", "disc"):
            g.op("pgetcap", p=p, k=g.ch(i["pk"], i["pk"], i["pk"], "cat", "ord", "disc"), n=max(1, len(i["vals"]) + g.r.randrange(-1, 3)))
        for _ in range(4 if i["pk"] == "ord" else 1 if g.p(.2) else 0):
            g.op("pcmp", p=p, v=g.pvalue(p, .15), w=g.pvalue(p, .15))
        g.op("pint", p=p)
        if i["pk"] == "ord" and len(i["vals"]) <= 4 and "di" in i:
            for a in i["vals"]:
                for b in i["vals"]:
                    g.op("pcmp", p=p, v=a, w=b)
    return g.end()

def exprs(seed, n=14):
    """one trace: expressions, well typed or not, evaluated on many assignments"""
    g = G(seed)
    ps = [g.param("p%d" % i, kinds=("num", "num", "cat", "ord", "ord", "disc", "str")) for i in range(g.r.randrange(1, 5))]
    extra = g.param("zz") if g.p(.4) else None
    inside = list(ps)
    k = g.ch("fs", "os") if any(g.info[p]["pk"] == "str" for p in ps) else g.ch("cs", "fs", "os")
    c = g.ctx(k, inside, each=g.p(.5))
    pool = inside + ([extra] if extra else [])
    for _ in range(n):
        w = g.r.random()
        use = pool if g.p(.15) else inside
        if w < .45:
            e = g.as_slot(g.boolean(use, g.r.randrange(3), .1))
        elif w < .65:
            e = g.as_slot(g.number([p for p in use if g.info[p]["pk"] in ("num", "disc")], g.r.randrange(1, 4)))
        elif w < .9:
            e = g.as_slot(g.anyexpr(use, g.r.randrange(3)))
        else:
            bad_expr(g, use)
            continue
        if g.p(.5):
            g.op("einfo", e=e)
            g.op("eparams", e=e)
            g.op("echk", e=e, ctx=g.ch(c, c, 0))
            if g.p(.3):
                g.op("enodes", e=e, n=g.r.randrange(1, 5))
                g.op("eparams", e=e, n=g.r.randrange(1, 4))
                g.op("elit", e=e)
                g.op("evar", e=e)
        for _ in range(4):
            vals = [g.pvalue(p, .05, .15) for p in inside]
            kw = {}
            ctx = c
            if g.p(.04):
                kw["nv"] = 1
            elif g.p(.04):
                ctx = 0
            g.op("eeval", e=e, ctx=ctx, vals=vals, **kw)
        if g.p(.1):
            g.op("elist", e=e, ctx=c, vals=[g.pvalue(p) for p in inside], i=g.r.randrange(4))
    return g.end()

def bad_expr(g, ps):
    w = g.r.randrange(6)
    lit = lambda: g.val("nifbs")
    if w == 0:
        g.expr_(g.ch("or", "eq", "add", "in", "not", "neg"), [lit() for _ in range(g.ch(0, 1, 2, 3))], 0)
    elif w == 1:
        g.expr_(g.ch("or", "eq", "list"), [lit(), INACT], 0)
    elif w == 2:
        g.expr_(g.ch("lit", "var"), [lit()], 0)
    elif w == 3:
        g.expr_("var", [["o", 0]], 2)
    elif w == 4:
        g.expr_(g.ch("or", "list", "eq"), [lit(), ["o", 0]], 0)
    else:
        r = g.rng("0")
        g.expr_(g.ch("or", "eq", "list"), [["o", r], lit()] if g.p(.5) else [lit(), ["o", r]], 0)

def small_exprs(seed):
    """every operator on every pair of a small value pool (no variables)"""
    g = G(seed)
    vals = [NONE, I(0), I(1), I(-2), I(3), F(0), F(1), F(5, 1), F(-3, 1), Bo(0), Bo(1), S("a"), S("b"), S("")]
    traces = []
    for t in ["or", "and", "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "mod", "in"]:
        g = G(seed)
        for a in vals:
            for b in vals:
                if t == "in":
                    l = g.expr_("list", [b, vals[g.r.randrange(len(vals))]])
                    e = g.expr_("in", [a, ["o", l]])
                    g.op("eeval", e=e, ctx=0, vals=[])
                    g.op("rel", s=e)
                    g.op("rel", s=l)
                else:
                    e = g.expr_(t, [a, b])
                    g.op("eeval", e=e, ctx=0, vals=[])
                    g.op("rel", s=e)
        traces.append(g.end())
    g = G(seed)
    for t in ["pos", "neg", "not"]:
        for a in vals:
            e = g.expr_(t, [a])
            g.op("eeval", e=e, ctx=0, vals=[])
            g.op("rel", s=e)
    traces.append(g.end())
    return traces

def structs(seed):
    """expression graphs with sharing; what they report about themselves"""
    g = G(seed)
    ps = [g.param("p%d" % i, kinds=("num", "cat", "ord", "disc", "str")) for i in range(g.r.randrange(1, 7))]
    ctxs = [g.ctx(g.ch("fs", "os"), g.r.sample(ps, g.r.randrange(0, len(ps) + 1)), each=g.p(.5)) for _ in range(3)]
    ctxs.append(g.ctx("os", g.r.sample(ps, len(ps))))
    pool = []
    def operand():
        w = g.r.random()
        if pool and w < .45:
            return ["o", g.r.choice(pool[-8:])]
        if w < .75:
            return g.variable(g.r.choice(ps))
        return g.literal(g.val("nifbs"))
    for _ in range(g.r.randrange(3, 16)):
        w = g.r.random()
        if w < .12:
            bad_expr(g, ps)
            continue
        t = g.r.choice(["or", "and", "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "mod", "pos", "neg",
                        "not", "in", "list", "list"])
        n = {"pos": 1, "neg": 1, "not": 1}.get(t, 2)
        if t == "list":
            n = g.r.randrange(0, 6)
        if g.p(.06):
            n = g.r.randrange(0, 5)
        if g.p(.03):
            t = g.ch("-1", "18", "19", "20", "77", "lit", "var")
        ns = [operand() for _ in range(n)]
        if n > 1 and g.p(.15):
            ns[1] = ns[0]
        e = g.expr_(t, ns)
        good = t in ("or", "and", "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "mod", "in") and n == 2 \
            or t in ("pos", "neg", "not") and n == 1 or t == "list"
        if not good:
            continue
        pool.append(e)
        g.op("einfo", e=e)
        g.op("eparams", e=e)
        for c in g.r.sample(ctxs, 2):
            g.op("echk", e=e, ctx=c)
        if g.p(.4):
            g.op("echk", e=e, ctx=0)
        if g.p(.5):
            g.op("enodes", e=e, n=g.r.randrange(1, 7))
            g.op("eparams", e=e, n=g.r.randrange(1, 7))
        if g.p(.3):
            g.op("elit", e=e)
            g.op("evar", e=e)
        if t == "list":
            c = ctxs[-1]
            g.op("elist", e=e, ctx=c, vals=[g.pvalue(p) for p in g.info[c]["ps"]], i=g.r.randrange(n + 2))
        if g.p(.1):
            # what is shared survives the release of its other user
            v = g.r.choice(pool)
            g.op("rel", s=v)
            pool.remove(v)
            g.held["expr"].remove(v)
    for e in pool:
        if g.p(.3):
            g.op("einfo", e=e)
            g.op("eparams", e=e)
    for e in list(g.held["expr"]):
        if g.p(.2):
            g.op("elit", e=e)
            g.op("evar", e=e)
            g.op("enodes", e=e, n=2)
    return g.end()
