"""Tuners and tree spaces the user implements."""
from gen.base import *
from gen import objs as OB
from gen.serial import T, newmap

URC = (-27, -27, -2, -1, -23, -9)
EK = {"tuner": "eval", "ftuner": "feval", "ttuner": "teval"}

def user(seed, n=None, ser=True):
    g = G(seed)
    t = T(g)
    k = g.ch("tuner", "tuner", "ftuner", "ttuner")
    fts, kw = [], {}
    if k == "ttuner":
        cs = g.slot()
        g.op("mktspace", d=cs, name="ts", t=OB.tree(g, 2, 2), dyn=0)
        g.hold("tspace", cs)
    else:
        cs = OB.mkctx(g, "cs")
    r = g.rng("0")
    g.op("cssetrng", s=cs, r=r)
    if k == "ftuner":
        kw["fs"] = OB.mkctx(g, "fs", g.ch(1, 2))
        fts = [OB.mkbind(g, "feat", kw["fs"], .05, 0) for _ in range(3)]
        if g.p(.3):
            fts.append(OB.mkbind(g, "feat", g.ctx("fs", g.info[kw["fs"]]["ps"]), 0, 0))
    ps = [g.num_param("abc"[i], dt="i") for i in range(g.r.randrange(1, 4))]
    os = g.ctx("os", ps)
    for p in ps[:g.r.randrange(1, 4)]:
        g.op("osobj", s=os, es=[g.as_slot(g.variable(p))], ts=[g.r.randrange(2)], one=1)
    mk = dict(k=k, name=g.ch("tu", "", "u" * 200), os=os, **kw)
    if g.p(.2):
        g.op("mkut", d=g.slot(), v=7, dat=1, cs=cs, bad=g.ch("del", "ask", "tell", "get_optima", "get_history"), **mk)
    if g.p(.05):
        g.op("mkut", d=g.slot(), v=7, dat=1, cs=g.ch(0, os), **mk)
    if g.p(.2):
        x = g.slot()
        g.op("mktuner", d=x, cs=cs, **dict(mk, name="lib"))
        g.hold("tuner", x)
        g.op("utdata", s=x)
    tus = []
    for _ in range(g.ch(1, 1, 2)):
        tu = g.slot()
        g.op("mkut", d=tu, v=g.r.randrange(8), dat=g.r.randrange(1 << 20) if g.p(.8) else 0, cs=cs, **mk)
        g.hold("tuner", tu)
        g.info[tu] = dict(v=g.ops[-1]["v"])
        tus.append(tu)
    confs = []
    for _ in range(3):
        c = g.slot()
        if k == "ttuner":
            g.op("mktconf", d=c, s=cs, p=g.ch([], [0], [1]))
            g.hold("tconf", c)
        else:
            g.op("csdefault", s=cs, d=c)
            g.hold("conf", c)
        confs.append(c)
    evs = []
    f = lambda: {"f": g.r.choice(fts) if g.p(.95) else 0} if k == "ftuner" else {}
    f0 = lambda: {"f": g.ch(0, 0, g.r.choice(fts))} if k == "ftuner" else {}
    u = lambda: {"urc": g.r.choice(URC)} if g.p(.12) else {}
    for i in range(g.r.randrange(30) if n is None else n):
        tu = g.r.choice(tus)
        w = g.r.random()
        if w < .2:
            m = g.ch(0, 1, 1, 2, 3)
            g.op("uask", s=tu, n=m, ret=g.r.randrange(2), cnt=g.r.randrange(9), give=[g.r.choice(confs) for _ in range(m)],
                 **({"arr": 0} if m and g.p(.1) else {}), **f(), **u())
        elif w < .5:
            es = []
            for _ in range(g.ch(0, 1, 1, 2)):
                e = g.slot()
                ekw = dict(c=g.r.choice(confs), r=0 if g.p(.85) else -1)
                if k == "ftuner":
                    ekw["f"] = g.r.choice(fts[:3])
                g.op("mkbind", d=e, k=EK[k], s=os, vals=[g.pvalue(p, .01, 0) for p in ps], tr=0, **ekw)
                g.hold(EK[k], e)
                evs.append(e)
                es.append(e)
            if evs and g.p(.1):
                es.append(g.r.choice(evs))
            g.op("utell", s=tu, es=es, **u())
        elif w < .62:
            g.op("usug", s=tu, give=[g.r.choice(confs)], **f(), **u())
        elif w < .82:
            m = g.ch(0, 0, 1, 2, 10, 30)
            g.op("ulist", s=tu, w=g.ch("opt", "hist"), n=m, ret=g.r.randrange(2), **({"arr": 0} if m and g.p(.1) else {}), **f0(), **u())
        elif w < .86:
            g.op("tuinfo", s=tu)
        elif w < .9:
            g.op("utdata", s=tu)
        elif w < .96:
            g.op("utst", s=tu, v=g.r.randrange(1, 3000))
        elif evs:
            e = g.r.choice(evs)
            evs.remove(e)
            g.op("rel", s=e)
            g.held[EK[k]].remove(e)
    if not ser:
        return g.end()
    t.decorate(sorted({x for l in g.held.values() for x in l if x not in g.held.get("tconf", []) + g.held.get("conf", [])}))
    if g.p(.3):
        g.op("ser", s=tu, b=500, cb=0, urc=g.r.choice(URC))
    b = t.ser(tu)
    for i in range(g.r.randrange(1, 4)):
        m = newmap(g) if g.p(.3) else 0
        uv = g.r.randrange(8)
        fail = u()
        base = t.de(b, m, vec=1 if g.p(.9) else 0, uvec=uv, dat=g.r.randrange(1, 1 << 20), **fail)
        x = base + tu
        if m:
            g.op("mdump", m=m)
        xf = lambda: {"f": base + g.r.choice(fts[:3])} if k == "ftuner" else {}
        g.op("utdata", s=x)
        g.op("tuinfo", s=x)
        for w in ("hist", "opt"):
            g.op("ulist", s=x, w=w, n=40, ret=1)
        if k != "ftuner":
            c = g.slot()
            if k == "ttuner":
                g.op("mktconf", d=c, s=base + cs, p=[])
            else:
                g.op("csdefault", s=base + cs, d=c)
            e = g.slot()
            g.op("mkbind", d=e, k=EK[k], s=base + os, vals=[g.pvalue(p) for p in ps], tr=0, c=c, r=0)
            g.op("uask", s=x, n=1, ret=1, cnt=1, give=[c])
            g.op("utell", s=x, es=[e])
            for w in ("hist", "opt"):
                g.op("ulist", s=x, w=w, n=40, ret=1)
            g.op("usug", s=x, give=[c])
        if g.p(.4):
            g.op("utst", s=x, v=g.r.randrange(1, 3000))
            t.de(t.ser(x), 0, vec=1, uvec=g.r.randrange(8), dat=g.r.randrange(1, 999))
        if g.p(.3) and not m:
            g.op("rel", s=x)
    return g.end()

def spaces(seed):
    """dynamic tree spaces that keep a state, and random tuners over them"""
    g = G(seed)
    t = T(g)
    dyn = g.ch(1, 3, 3, 3)
    tr = OB.tree(g, g.r.randrange(3), g.r.randrange(1, 4), .6)
    s = g.slot()
    g.op("mktspace", d=s, name=g.ch("ts", "t" * 150), t=tr, dyn=dyn)
    g.hold("tspace", s)
    g.op("cssetrng", s=s, r=g.rng("0"))
    nb = 10000
    for _ in range(g.r.randrange(4)):
        nb += 20
        g.op("tsnode", s=s, p=OB.rpos(g, 4), nb=nb)
    if g.p(.8):
        g.op("tsst", s=s, v=g.r.randrange(1, 3000))
    x = s
    if g.p(.4):
        p = g.num_param("a", dt="i")
        os = g.ctx("os", [p])
        g.op("osobj", s=os, es=[g.as_slot(g.variable(p))], ts=[0], one=1)
        x = g.slot()
        g.op("mktuner", d=x, k="ttuner", name="tu", cs=s, os=os)
        g.hold("tuner", x)
        for _ in range(g.r.randrange(3)):
            d, e = g.slot(), g.slot()
            g.op("ask", s=x, n=1, d=[d], cnt=0)
            g.hold("tconf", d)
            g.op("mkbind", d=e, k="teval", s=os, vals=[g.pvalue(p)], tr=0, c=d, r=0)
            g.hold("teval", e)
            g.op("tell", s=x, es=[e])
    t.decorate([s, tr, x])
    if dyn == 3 and g.p(.3):
        g.op("ser", s=x, b=500, cb=0, urc=g.r.choice(URC))
    b = t.ser(x)
    for i in range(g.r.randrange(1, 3)):
        m = newmap(g) if g.p(.3) else 0
        uv = g.ch(0, 7, 7)
        fail = {"urc": g.r.choice(URC)} if uv and g.p(.12) else {}
        base = t.de(b, m, vec=1 if g.p(.9) else 0, uvec=uv, **fail)
        y = base + s
        for _ in range(3):
            nb += 20
            g.op("tsnode", s=y, p=OB.rpos(g, 4), nb=nb)
        if x != s:
            g.op("tuhist", s=base + x)
            g.op("suggest", s=base + x, d=g.slot())
        if g.p(.4):
            if uv:
                g.op("tsst", s=y, v=g.r.randrange(1, 3000))
            t.de(t.ser(base + x), 0, vec=1, uvec=g.ch(0, 7))
        if g.p(.3) and not m:
            g.op("rel", s=base + x)
    return g.end()

def broken(seed):
    from gen import serial
    return serial.broken(seed, random.Random(seed).choice([user, user, spaces]))
