"""What is run for each property."""
from gen import args, basic, big, models, objs, serial, space, user
from gen.starve import starved

def scale(tier, q, t):
    return q if tier == "quick" else t

def run(s, prop, tier, seed):
    base = seed * 1000003
    table[prop](s, tier, base)

def many(f, n, base, *a):
    return [f(base + i, *a) for i in range(n)]

def c09(s, tier, b):
    s.validate(many(basic.params, scale(tier, 150, 4000), b), "params")
    s.validate(many(big.params, scale(tier, 16, 400), b), "many-values")

def c07(s, tier, b):
    s.validate(basic.small_exprs(b), "operators")
    s.validate(many(basic.exprs, scale(tier, 200, 5000), b), "exprs")
    s.validate(many(big.exprs, scale(tier, 24, 600), b), "big-exprs")

def c08(s, tier, b):
    simple(basic.structs, "expression-structure", 240, 5000)(s, tier, b)
    simple(big.exprs, "big-exprs", 16, 400)(s, tier, b + 500)

def sp(focus, q=160, t=4000):
    def f(s, tier, b):
        s.validate(many(space.space, scale(tier, q, t), b, focus), "space-" + (focus or "any"))
    return f

def world(s, tier, label, quick, thorough=()):
    """small worlds explored exhaustively by TLC and walked through on the library"""
    for m in (quick if tier == "quick" else list(quick) + list(thorough)):
        s.validate(s.explored(m), label)

def starve(s, tier, b, *fs):
    """every allocation of some calls fails in turn"""
    for f, n in fs:
        s.validate(many(starved(f), scale(tier, n, 25 * n), b), "starved-" + f.__name__)

def c01(s, tier, b):
    simple(objs.life, "lifetime", 300, 6000)(s, tier, b)
    starve(s, tier, b, (objs.life, 12), (basic.params, 8), (basic.structs, 8), (space.space, 12), (space.dists, 8), (objs.maps, 8),
           (objs.binds, 12), (objs.evals, 8), (objs.trees, 8), (objs.tspaces, 12), (objs.tuners, 12), (serial.linked, 8),
           (serial.simple, 8), (serial.spaces, 6), (serial.tspaces, 6), (serial.tuners, 6))
    world(s, tier, "holders", [models.holders()])

def c02(s, tier, b):
    sp("mut")(s, tier, b)
    simple(space.graph, "graphs", 60, 2000)(s, tier, b + 50000)
    simple(space.empty, "empty-spaces", 8, 40)(s, tier, b)
    starve(s, tier, b + 1000, (space.space, 24), (space.graph, 16))
    world(s, tier, "clauses", [models.clauses()])

def c03(s, tier, b):
    sp("cond")(s, tier, b)
    simple(space.graph, "graphs", 120, 3000)(s, tier, b)
    simple(big.graphs, "big-graphs", 16, 400)(s, tier, b)
    world(s, tier, "conditions", [models.conditions()], [models.conditions(3, True, (1, 0, 1)), models.conditions(4, False)])

def c06(s, tier, b):
    sp("dist")(s, tier, b)
    s.validate(many(starved(space.space), scale(tier, 16, 400), b + 2000, "dist"), "starved-space")
    world(s, tier, "joint", [models.joint()], [models.joint(3, True)])

def c12(s, tier, b):
    simple(objs.maps, "maps", 240, 5000)(s, tier, b)
    simple(big.maps, "big-maps", 8, 100)(s, tier, b)
    starve(s, tier, b + 1000, (objs.maps, 24))
    world(s, tier, "map-worlds", [models.maps()], [models.maps(4)])

def c15(s, tier, b):
    simple(objs.tuners, "tuners", 240, 5000)(s, tier, b)
    starve(s, tier, b + 1000, (objs.tuners, 24))
    world(s, tier, "told", [models.told(), models.told("ftuner", 3)], [models.told("tuner", 5)])

def c04(s, tier, b):
    simple(space.empty, "empty-spaces", 8, 40)(s, tier, b)
    sp("check")(s, tier, b)
    simple(space.graph, "graphs", 60, 2000)(s, tier, b + 70000)
    s.validate(many(space.foreign, scale(tier, 60, 1500), b), "foreign")

def c05(s, tier, b):
    sp("sample")(s, tier, b)
    s.validate(many(space.cover, scale(tier, 60, 1000), b), "cover")
    s.validate(many(big.graphs, scale(tier, 12, 300), b + 500), "big-graphs")
    s.validate(many(space.tries, scale(tier, 8, 40), b), "tries")

def c10(s, tier, b):
    s.validate(many(space.dists, scale(tier, 160, 4000), b), "dists")
    s.validate(many(space.dcover, scale(tier, 24, 400), b), "dcover")

def c11(s, tier, b):
    s.validate(objs.interval_units(b), "interval-units")
    s.validate(many(objs.intervals, scale(tier, 16, 200), b), "intervals")
    s.validate(objs.interval_pairs(-1, scale(tier, 1, 2), "i"), "interval-pairs-int")
    s.validate(objs.interval_pairs(-1, scale(tier, 1, 2), "f"), "interval-pairs-float")

def simple(f, label, q, t):
    return lambda s, tier, b: s.validate(many(f, scale(tier, q, t), b), label)

def c16(s, tier, b):
    simple(objs.trees, "trees", 240, 5000)(s, tier, b)
    simple(big.trees, "big-trees", 24, 600)(s, tier, b)
    starve(s, tier, b + 1000, (objs.trees, 16))
    world(s, tier, "forests", [models.forest(3)], [models.forest(4)])
    world(s, tier, "weights", [models.weights()])
    simple(objs.tfreq, "tree-frequencies", 24, 300)(s, tier, b)

def c13(s, tier, b):
    simple(objs.binds, "bindings", 240, 5000)(s, tier, b)
    starve(s, tier, b + 1000, (objs.binds, 16))
    simple(objs.mixed, "bindings-mixed", 80, 2000)(s, tier, b)
    simple(objs.lookups, "lookups", 80, 2000)(s, tier, b)
    world(s, tier, "binding-worlds", [models.bindings(k) for k in ("conf", "feat", "eval")])

def c17(s, tier, b):
    simple(objs.tspaces, "tree-spaces", 240, 5000)(s, tier, b)
    simple(big.trees, "big-trees", 24, 600)(s, tier, b + 500)
    starve(s, tier, b + 1000, (objs.tspaces, 16))
    world(s, tier, "spots", [models.spots(), models.spots(1)])

def c18(s, tier, b):
    simple(serial.simple, "copy-simple", 120, 3000)(s, tier, b)
    simple(serial.linked, "copy-linked", 120, 3000)(s, tier, b)
    simple(serial.spaces, "copy-spaces", 80, 2000)(s, tier, b)
    simple(serial.tspaces, "copy-tree-spaces", 60, 2000)(s, tier, b)
    simple(serial.tuners, "copy-tuners", 80, 2000)(s, tier, b)
    world(s, tier, "copy-worlds", [models.copying(m) for m in (models.clauses(), models.told("ftuner", 3), models.bindings(), models.spots())],
          [models.copying(m) for m in (models.joint(), models.maps(), models.told(), models.conditions())])

def c19(s, tier, b):
    simple(serial.broken, "cut-short", 160, 4000)(s, tier, b)
    simple(serial.broken_tuners, "cut-short-tuners", 40, 1000)(s, tier, b)
    simple(user.broken, "cut-short-user", 40, 1000)(s, tier, b)
    starve(s, tier, b, (serial.linked, 16), (serial.spaces, 12), (serial.tspaces, 12), (serial.tuners, 12))

def c20(s, tier, b):
    sched = s.emitted("MCStream", env={"LEN": str(scale(tier, 4, 5))})
    s.validate(serial.scheduled(sched), "schedules")
    simple(serial.streams, "descriptors", 300, 6000)(s, tier, b)

def errs(f):
    """with a look at the thread's error after every call"""
    def g(*a):
        t = f(*a)
        if t:
            t[0] = dict(t[0], errs=1)
        return t
    return g

def c21(s, tier, b):
    s.validate(args.calls(s.emitted("MCArgs", env={"PAIRS": str(scale(tier, 0, 1))})), "calls")
    s.validate(args.errors(s.emitted("MCErr", env={"VARS": "1", "LINES": str(scale(tier, 0, 1))})), "thread-errors")
    for f, n in ((basic.structs, 24), (objs.binds, 24), (objs.evals, 24), (objs.tuners, 24), (objs.trees, 24), (objs.tspaces, 24),
                 (space.space, 40), (space.dists, 24), (space.foreign, 10), (serial.linked, 20), (serial.broken, 20)):
        s.validate(many(errs(f), scale(tier, n, 25 * n), b), "errors-" + f.__name__)
    for f in (basic.params, basic.structs, objs.binds, objs.maps, objs.tuners, objs.tspaces, space.space, space.dists, serial.linked):
        s.validate(many(errs(starved(f)), scale(tier, 16, 400), b + 3000), "starved-" + f.__name__)

def c22(s, tier, b):
    simple(user.user, "user-tuners", 200, 5000)(s, tier, b)
    simple(user.spaces, "user-spaces", 160, 4000)(s, tier, b)
    simple(objs.tspaces, "tree-spaces", 100, 2000)(s, tier, b)

table = {"C21": c21, "C22": c22, "C20": c20, "C18": c18, "C19": c19,
         "C01": c01,
         "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C10": c10,
         "C07": c07, "C08": c08, "C09": c09, "C11": c11, "C12": c12,
         "C13": c13, "C14": simple(objs.evals, "evaluations", 240, 5000),
         "C15": c15, "C16": c16,
         "C17": c17}
notes = {}
