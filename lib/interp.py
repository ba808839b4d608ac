"""Executes operation lists against the library under test and records what it did.

   usage: interp.py OPS.json EVENTS.ndjson [first]
   OPS.json: one trace per line, a JSON list of operations.
   EVENTS.ndjson: one event per line: the operation plus rc (result code), o (output), dead (destroyed objects).
"""
import ctypes as C, json, os, random, sys, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ccs
from ccs import *

DCB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p)
byref = C.byref

class Skip(Exception):
    pass

class Drop(Exception):
    """the operation does not apply (it refers to something that was never created)"""

CTXN = {"cs": "configuration_space", "fs": "features_space", "os": "objective_space"}
BINDN = {"conf": "configuration", "feat": "features", "eval": "evaluation", "feval": "features_evaluation",
         "tconf": "tree_configuration", "teval": "tree_evaluation"}
ETYPES = ["or", "and", "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "mod", "pos", "neg", "not",
          "in", "list", "lit", "var"]
PTYPES = ["num", "cat", "ord", "disc", "str"]

class Interp:
    def __init__(self, lib):
        self.l = lib
        self.cb = DCB(self._destroyed)
        self.extra_modules = []
        self.slab = C.create_string_buffer(8192)

    # -- bookkeeping ---------------------------------------------------------
    def reset(self):
        self.h = {}       # slot -> handle
        self.rev = {}     # handle -> slot
        self.k = {}       # slot -> kind
        self.dead = []
        self.pool = []    # buffers that must stay alive
        self.tmp = []     # transient buffers, scribbled over after the call
        self.used = self.nops = 0
        self.ud = {}
        self.keep = []
        self.cblog = []
        self.fd = None
        self.uref = {}    # slot -> references the user holds
        self.never = set()  # slots that were never created
        self.mat = None
        self.extra = {}
        for q in getattr(self, "fds", {}).values():
            q.close()
        self.fds = {}
        self.ut, self.uth, self.tsst, self.ucb = {}, {}, {}, []
        self.blobs = {}
        self.ever = set()
        self.todo = []      # operations to run next
        self.dupn = 0

    def _destroyed(self, obj, ud):
        ud = ud or 0
        slot, cid = ud >> 8, ud & 255
        if cid == 0:
            self.dead.append(slot)
            if self.rev.get(self.h.get(slot)) == slot:
                del self.rev[self.h[slot]]
            self.h.pop(slot, None)
        else:
            self.cblog.append([slot, cid])

    def reg(self, slot, handle, kind, refs=1):
        handle = handle if isinstance(handle, int) else handle.value
        self.l.L.vp_fail_disarm()
        if refs:
            self.uref[slot] = self.uref.get(slot, 0) + refs
        self.h[slot] = handle
        self.ever.add(slot)
        self.rev[handle] = slot
        self.k[slot] = kind
        # the bookkeeping callback is attached first, so it runs last
        self.l.object_set_destroy_callback(handle, self.cb, slot << 8)
        return slot

    def H(self, slot):
        if slot == 0:
            return None
        return self.h[slot]

    def S(self, handle):
        if handle is None or handle == 0:
            return 0
        return self.rev.get(handle, -1)

    # -- values --------------------------------------------------------------
    def enc(self, v, tr=False):
        t = v[0]
        fl = 1 if tr else 0
        if t == "n":
            return Datum(0, TN, fl)
        if t == "i":
            return Datum(emb_i(v[1]), TI, fl)
        if t == "f":
            return Datum(bits(emb_f(v[1], v[2])), TF, fl)
        if t == "b":
            return Datum(v[1], TB, fl)
        if t == "s":
            if tr:
                return Datum(C.cast(self.name(v[1]), C.c_void_p).value, TS, fl)
            b = C.create_string_buffer(v[1].encode())
            self.pool.append(b)
            return Datum(C.addressof(b), TS, fl)
        if t == "x":
            return Datum(0, TX, fl)
        if t == "o":
            return Datum(self.H(v[1]) or 0, TO, fl)
        if t == "oid":
            return Datum(self.H(v[1]) or 0, TO, fl | 4)
        if t == "z":           # minus zero
            return Datum(bits(-0.0), TF, fl)
        if t == "I":           # raw 64 bit integer, as a string
            return Datum(int(v[1]), TI, fl)
        if t == "F":           # raw double, hexadecimal string
            return Datum(bits(float.fromhex(v[1])), TF, fl)
        raise Skip("value %r" % (v,))

    def dec(self, d):
        t = d.t
        if t == TN:
            return ["n"]
        if t == TI:
            return ["i", unemb_i(d.v)]
        if t == TF:
            return f2v(unbits(d.v))
        if t == TB:
            return ["b", 1 if d.v else 0]
        if t == TS:
            return ["s", C.string_at(d.v).decode("latin1") if d.v else "(null)"]
        if t == TX:
            return ["x"]
        if t == TO:
            return ["o", self.S(d.v)]
        return ["bad", t]

    def arr(self, vs, tr=False):
        a = (Datum * max(1, len(vs)))()
        for i, v in enumerate(vs):
            a[i] = self.enc(v, tr)
        return self.own(a)

    def darr(self, n):
        """an output array prefilled with a recognisable type"""
        a = (Datum * max(1, n))()
        for i in range(max(1, n)):
            a[i] = Datum(0x5a5a5a5a, 77, 0)
        return a

    def decs(self, a, n):
        return [self.dec(a[i]) for i in range(n)]

    def num(self, v):
        """a numeric union passed by value"""
        return self.enc(v).v

    def handles(self, slots):
        a = (C.c_void_p * max(1, len(slots)))()
        for i, s in enumerate(slots):
            a[i] = self.H(s)
        return self.own(a)

    def own(self, b):
        """memory of the caller's: the caller does as it likes with it once the call is over"""
        self.tmp.append(b)
        return b

    def name(self, s):
        b = s.encode()
        # half of the calls find their strings where an earlier call found other ones
        if self.nops // 8 % 2 and self.used + len(b) + 1 < 8000:
            a = C.addressof(self.slab) + self.used
            C.memmove(a, b + b"\0", len(b) + 1)
            self.used += len(b) + 1
            return C.cast(a, C.c_char_p)
        return C.cast(self.own(C.create_string_buffer(b)), C.c_char_p)

    def scribble(self):
        for b in self.tmp:
            C.memset(byref(b), 0x7e, C.sizeof(b) - 1)
        # keep the scribbled buffers: a pointer kept by mistake then reads garbage, deterministically
        self.pool += self.tmp
        self.tmp = []
        if self.used:
            C.memset(self.slab, 0x7e, self.used)
            self.used = 0
        self.nops += 1

    # -- lifetime ------------------------------------------------------------
    def op_ret(self, o):
        rc = self.l.retain_object(self.H(o["s"]))
        if rc == 0:
            self.uref[o["s"]] = self.uref.get(o["s"], 0) + 1
        return rc, 0

    def op_rel(self, o):
        s = o["s"]
        if self.uref.get(s, 0) <= 0:
            raise Drop()
        rc = self.l.release_object(self.H(s))
        if rc == 0:
            self.uref[s] -= 1
        return rc, 0

    def op_retnull(self, o):
        return self.l.retain_object(None), 0

    def op_relnull(self, o):
        return self.l.release_object(None), 0

    def op_cb(self, o):
        return self.l.object_set_destroy_callback(self.H(o["s"]), self.cb, (o["s"] << 8) | o["c"]), 0

    def op_refc(self, o):
        r = C.c_int32(-5)
        rc = self.l.object_get_refcount(self.H(o["s"]), byref(r))
        return rc, r.value

    def op_otype(self, o):
        r = C.c_int32(-5)
        rc = self.l.object_get_type(self.H(o["s"]), byref(r))
        return rc, (OT[r.value] if 0 <= r.value < len(OT) else "?")

    def op_sud(self, o):
        return self.l.object_set_user_data(self.H(o["s"]), o["v"]), 0

    def op_gud(self, o):
        r = C.c_void_p(0)
        rc = self.l.object_get_user_data(self.H(o["s"]), byref(r))
        return rc, (r.value or 0)

    def op_end(self, o):
        """release every remaining user reference, in an order given by the seed"""
        rc = 0
        order = [s for s in sorted(self.uref) for _ in range(self.uref[s])]
        random.Random(o.get("seed", 0)).shuffle(order)
        self.extra["ord"] = order
        for s in order:
            if s not in self.h:
                rc = -100
                break
            rc = rc or self.l.release_object(self.h[s])
        self.finish()
        return rc, self.l.L.vp_get_live() - self.live0

    def finish(self):
        for m in self.extra_modules:
            f = getattr(m, "finish", None)
            if f:
                f(self)

    # -- parameters ----------------------------------------------------------
    def op_mkparam(self, o):
        p = C.c_void_p(0)
        k = o["k"]
        name = self.name(o["name"])
        l = self.l
        if k == "num":
            if o.get("g"):
                rc = l.create_numerical_parameter(name, 1 if o["dt"] == "i" else 2, self.num(o["lo"]), self.num(o["hi"]),
                                                  self.num(o["q"]), self.num(o["df"]), byref(p))
            elif o["dt"] == "i":
                rc = l.create_int_numerical_parameter(name, self.num(o["lo"]), self.num(o["hi"]), self.num(o["q"]),
                                                      self.num(o["df"]), byref(p))
            else:
                f = lambda v: emb_f(v[1], v[2])
                rc = l.create_float_numerical_parameter(name, f(o["lo"]), f(o["hi"]), f(o["q"]), f(o["df"]), byref(p))
        elif k == "str":
            rc = l.create_string_parameter(name, byref(p))
        else:
            f = {"cat": l.create_categorical_parameter, "ord": l.create_ordinal_parameter,
                 "disc": l.create_discrete_parameter}[k]
            rc = f(name, len(o["vals"]), self.arr(o["vals"], True), o["di"], byref(p))
        if rc == 0:
            self.reg(o["d"], p, "param")
        return rc, (0 if rc == 0 or not p.value else 1)

    def _pvals(self, f, h):
        n = C.c_size_t(99)
        rc = f(h, 0, None, byref(n))
        if rc:
            return rc, []
        a = self.darr(n.value)
        rc = f(h, n.value, a, None)
        return rc, self.decs(a, n.value)

    def op_pinfo(self, o):
        h = self.H(o["p"])
        l = self.l
        t = C.c_int32(-1)
        nm = C.c_char_p()
        d = Datum(0, 77, 0)
        rcs = [l.parameter_get_type(h, byref(t)), l.parameter_get_name(h, byref(nm)),
               l.parameter_get_default_value(h, byref(d))]
        out = [PTYPES[t.value], nm.value.decode(), self.dec(d)]
        if t.value == 0:
            dt, lo, hi, q = C.c_int32(0), C.c_int64(0), C.c_int64(0), C.c_int64(0)
            rcs.append(l.numerical_parameter_get_properties(h, byref(dt), byref(lo), byref(hi), byref(q)))
            out.append([self.dec(Datum(x.value, dt.value, 0)) for x in (lo, hi, q)])
        elif t.value in (1, 2, 3):
            f = [None, l.categorical_parameter_get_values, l.ordinal_parameter_get_values,
                 l.discrete_parameter_get_values][t.value]
            rc, vs = self._pvals(f, h)
            rcs.append(rc)
            out.append(vs)
        else:
            out.append([])
        return next((r for r in rcs if r), 0), out

    def op_pgetcap(self, o):
        """values of an enumerated parameter into an array of a given capacity"""
        l = self.l
        f = {"cat": l.categorical_parameter_get_values, "ord": l.ordinal_parameter_get_values,
             "disc": l.discrete_parameter_get_values}[o["k"]]
        a = self.darr(o["n"])
        n = C.c_size_t(99)
        rc = f(self.H(o["p"]), o["n"], a, byref(n))
        return rc, [n.value, self.decs(a, o["n"])] if rc == 0 else 0

    def op_pcheck(self, o):
        h = self.H(o["p"])
        vs = o["vs"]
        if o.get("b"):
            r = (C.c_int32 * max(1, len(vs)))(*([7] * len(vs)))
            rc = self.l.parameter_check_values(h, len(vs), self.arr(vs, True), r)
            return rc, list(r)[:len(vs)]
        out = []
        for v in vs:
            r = C.c_int32(7)
            rc = self.l.parameter_check_value(h, self.enc(v, True), byref(r))
            if rc:
                return rc, 0
            out.append(r.value)
        return 0, out

    def op_pval(self, o):
        h = self.H(o["p"])
        vs = o["vs"]
        tr = not o.get("nt")
        at = len(self.pool)
        def over():
            if not tr and not o.get("kept"):        # the caller may do as it likes with its own copy
                self.tmp += self.pool[at:]
                del self.pool[at:]
            self.scribble()
        if o.get("b"):
            r = (C.c_int32 * max(1, len(vs)))(*([7] * len(vs)))
            a = self.darr(len(vs))
            rc = self.l.parameter_validate_values(h, len(vs), self.arr(vs, tr), a, r)
            over()
            return rc, [[r[i], self.dec(a[i])] for i in range(len(vs))]
        out = []
        for v in vs:
            r = C.c_int32(7)
            d = Datum(0, 77, 0)
            rc = self.l.parameter_validate_value(h, self.enc(v, tr), byref(d), byref(r))
            if rc:
                return rc, 0
            over()
            out.append([r.value, self.dec(d)])
            at = len(self.pool)
        return 0, out

    def op_pcmp(self, o):
        r = C.c_int64(99)
        rc = self.l.ordinal_parameter_compare_values(self.H(o["p"]), self.enc(o["v"], True), self.enc(o["w"], True), byref(r))
        return rc, (r.value > 0) - (r.value < 0)

    def ivl(self, iv):
        lo, hi = [self.dec(Datum(x, iv.t, 0)) for x in (iv.lo, iv.hi)]
        return [lo, hi, 1 if iv.li else 0, 1 if iv.ui else 0]

    def op_pint(self, o):
        iv = Interval()
        rc = self.l.parameter_sampling_interval(self.H(o["p"]), byref(iv))
        return rc, self.ivl(iv) if rc == 0 else 0

    # -- expressions ---------------------------------------------------------
    def op_mkexpr(self, o):
        e = C.c_void_p(0)
        nodes = o["n"]
        t = ETYPES.index(o["t"]) if o["t"] in ETYPES else int(o["t"])
        a = self.arr(nodes, True)
        f = o.get("f")
        if f == 1 and len(nodes) == 1:
            rc = self.l.create_unary_expression(t, a[0], byref(e))
        elif f == 1 and len(nodes) == 2:
            rc = self.l.create_binary_expression(t, a[0], a[1], byref(e))
        elif o["t"] == "lit" and f == 2:
            rc = self.l.create_literal(a[0], byref(e))
        elif o["t"] == "var" and f == 2:
            rc = self.l.create_variable(a[0].v or None, byref(e))
        else:
            rc = self.l.create_expression(t, len(nodes), a if nodes else None, byref(e))
        if rc == 0:
            self.reg(o["d"], e, "expr")
        return rc, (0 if rc == 0 or not e.value else 1)

    def edesc(self, h, depth=0):
        """structural description of an expression through the getters"""
        l = self.l
        t = C.c_int32(-1)
        n = C.c_size_t(99)
        rc = l.expression_get_type(h, byref(t)) or l.expression_get_num_nodes(h, byref(n))
        if rc:
            raise Skip("rc %d" % rc)
        tn = ETYPES[t.value]
        if tn == "lit":
            d = Datum(0, 77, 0)
            rc = l.literal_get_value(h, byref(d))
            return ["lit", self.dec(d)] if rc == 0 and n.value == 0 else ["err", rc]
        if tn == "var":
            p = C.c_void_p(0)
            rc = l.variable_get_parameter(h, byref(p))
            return ["var", self.S(p.value)] if rc == 0 and n.value == 0 else ["err", rc]
        a = (C.c_void_p * max(1, n.value))()
        m = C.c_size_t(99)
        rc = l.expression_get_nodes(h, n.value, a, byref(m))
        if rc or m.value != n.value:
            return ["err", rc]
        return [tn] + [self.edesc(a[i], depth + 1) for i in range(n.value)]

    def op_einfo(self, o):
        return 0, self.edesc(self.H(o["e"]))

    def op_enodes(self, o):
        a = (C.c_void_p * max(1, o["n"]))(*([1] * o["n"]))
        m = C.c_size_t(99)
        rc = self.l.expression_get_nodes(self.H(o["e"]), o["n"], a, byref(m))
        if rc:
            return rc, 0
        return 0, [m.value, [self.S(a[i]) for i in range(m.value)], [0 if not a[i] else 1 for i in range(m.value, o["n"])]]

    def op_elit(self, o):
        d = Datum(0, 77, 0)
        rc = self.l.literal_get_value(self.H(o["e"]), byref(d))
        return rc, self.dec(d) if rc == 0 else 0

    def op_evar(self, o):
        p = C.c_void_p(0)
        rc = self.l.variable_get_parameter(self.H(o["e"]), byref(p))
        return rc, self.S(p.value) if rc == 0 else 0

    def op_eparams(self, o):
        h = self.H(o["e"])
        n = C.c_size_t(99)
        cap = o.get("n", -1)
        if cap < 0:
            rc = self.l.expression_get_parameters(h, 0, None, byref(n))
            if rc:
                return rc, 0
            cap = n.value
        if cap == 0 and "n" not in o:
            return 0, []
        a = (C.c_void_p * max(1, cap))(*([1] * cap))
        rc = self.l.expression_get_parameters(h, cap, a, byref(n))
        if rc:
            return rc, 0
        if any(a[i] for i in range(n.value, cap)):
            return 0, [-7]
        return rc, sorted(self.S(a[i]) for i in range(n.value))

    def op_eeval(self, o):
        d = Datum(0, 77, 0)
        vals = o["vals"]
        a = self.arr(vals) if o.get("nv") is None else None
        rc = self.l.expression_eval(self.H(o["e"]), self.H(o["ctx"]), a, byref(d))
        return rc, self.dec(d) if rc == 0 else 0

    def op_elist(self, o):
        d = Datum(0, 77, 0)
        rc = self.l.expression_list_eval_node(self.H(o["e"]), self.H(o["ctx"]), self.arr(o["vals"]), o["i"], byref(d))
        return rc, self.dec(d) if rc == 0 else 0

    def op_echk(self, o):
        return self.l.expression_check_context(self.H(o["e"]), self.H(o["ctx"])), 0

    # -- contexts ------------------------------------------------------------
    def f(self, pre, name):
        return getattr(self.l, pre + "_" + name)

    def op_mkctx(self, o):
        s = C.c_void_p(0)
        rc = getattr(self.l, "create_" + CTXN[o["k"]])(self.name(o["name"]), byref(s))
        if rc == 0:
            self.reg(o["d"], s, o["k"])
        return rc, 0

    def op_ctxadd(self, o):
        n = CTXN[self.k[o["s"]]]
        h = self.H(o["s"])
        ps = o["ps"]
        if self.k[o["s"]] == "cs":
            if o.get("one"):
                return self.l.configuration_space_add_parameter(h, self.H(ps[0]), self.H(o["ds"][0])), 0
            return self.l.configuration_space_add_parameters(
                h, len(ps), self.handles(ps), self.handles(o["ds"]) if o["ds"] else None), 0
        if o.get("one"):
            return self.f(n, "add_parameter")(h, self.H(ps[0])), 0
        return self.f(n, "add_parameters")(h, len(ps), self.handles(ps)), 0

    def cpre(self, o):
        return "context" if o.get("g") else CTXN[self.k[o["s"]]]

    def op_ctxdump(self, o):
        pre = self.cpre(o)
        h = self.H(o["s"])
        n = C.c_size_t(99)
        nm = C.c_char_p()
        rc = self.f(pre, "get_num_parameters")(h, byref(n)) or self.f(pre, "get_name")(h, byref(nm))
        if rc:
            return rc, 0
        a = (C.c_void_p * (n.value + 2))(*([1] * (n.value + 2)))
        m = C.c_size_t(99)
        rc = self.f(pre, "get_parameters")(h, n.value + 2, a, byref(m))
        if rc:
            return rc, 0
        if a[n.value] or a[n.value + 1]:
            return -100, 0
        ps = [self.S(a[i]) for i in range(m.value)]
        one = []
        for i in range(n.value):
            p = C.c_void_p(0)
            rc = self.f(pre, "get_parameter")(h, i, byref(p))
            if rc:
                return rc, 0
            one.append(self.S(p.value))
        return 0, [nm.value.decode(), n.value, ps, one]

    def op_ctxget(self, o):
        pre = self.cpre(o)
        h = self.H(o["s"])
        p = C.c_void_p(0)
        i = C.c_size_t(99)
        by = o["by"]
        if by == "i":
            rc = self.f(pre, "get_parameter")(h, o["x"], byref(p))
            return rc, self.S(p.value) if rc == 0 else 0
        if by == "n":
            rc = self.f(pre, "get_parameter_by_name")(h, self.name(o["x"]), byref(p))
            return rc, self.S(p.value) if rc == 0 else 0
        if by == "ni":
            rc = self.f(pre, "get_parameter_index_by_name")(h, self.name(o["x"]), byref(i))
            return rc, i.value if rc == 0 else 0
        if by == "p":
            rc = self.f(pre, "get_parameter_index")(h, self.H(o["x"]), byref(i))
            return rc, i.value if rc == 0 else 0
        if by == "ps":
            ps = o["x"]
            a = (C.c_size_t * max(1, len(ps)))(*([99] * len(ps)))
            rc = self.f(pre, "get_parameter_indexes")(h, len(ps), self.handles(ps), a)
            return rc, list(a)[:len(ps)] if rc == 0 else 0
        if by == "cap":
            a = (C.c_void_p * max(1, o["x"]))(*([1] * o["x"]))
            rc = self.f(pre, "get_parameters")(h, o["x"], a, byref(i))
            return rc, [self.S(a[j]) for j in range(o["x"])] if rc == 0 else 0

    def op_ctxval(self, o):
        d = Datum(0, 77, 0)
        rc = self.f(self.cpre(o), "validate_value")(self.H(o["s"]), o["i"], self.enc(o["v"], True), byref(d))
        self.scribble()
        return rc, self.dec(d) if rc == 0 else 0

    def op_checkv(self, o):
        """validity of a vector of values"""
        k = self.k[o["s"]]
        h = self.H(o["s"])
        r = C.c_int32(7)
        a = self.arr(o["vals"], bool(o.get("tr")))
        n = len(o["vals"])
        f = {"cs": self.l.configuration_space_check_configuration_values,
             "fs": self.l.features_space_check_features_values,
             "os": self.l.objective_space_check_evaluation_values}[k]
        rc = f(h, n, a, byref(r))
        return rc, r.value if rc == 0 else 0

    # -- configuration space -------------------------------------------------
    def op_cscond(self, o):
        return self.l.configuration_space_set_condition(self.H(o["s"]), o["i"], self.H(o["e"])), 0

    def op_csforb(self, o):
        h = self.H(o["s"])
        if o.get("one"):
            return self.l.configuration_space_add_forbidden_clause(h, self.H(o["es"][0])), 0
        return self.l.configuration_space_add_forbidden_clauses(h, len(o["es"]), self.handles(o["es"])), 0

    def op_cssetdist(self, o):
        ix = self.own((C.c_size_t * max(1, len(o["ix"])))(*o["ix"]))
        return self.l.configuration_space_set_distribution(self.H(o["s"]), self.H(o["dist"]), ix), 0

    def op_cssetrng(self, o):
        f = self.l.tree_space_set_rng if self.k[o["s"]] == "tspace" else self.l.configuration_space_set_rng
        return f(self.H(o["s"]), self.H(o["r"])), 0

    def op_csgetrng(self, o):
        r = C.c_void_p(0)
        f = self.l.tree_space_get_rng if self.k[o["s"]] == "tspace" else self.l.configuration_space_get_rng
        rc = f(self.H(o["s"]), byref(r))
        return rc, max(0, self.S(r.value)) if rc == 0 else 0

    def op_csdump(self, o):
        l = self.l
        h = self.H(o["s"])
        n = C.c_size_t(99)
        rc = l.configuration_space_get_num_parameters(h, byref(n))
        if rc:
            return rc, 0
        n = n.value
        ps = (C.c_void_p * max(1, n))()
        rc = l.configuration_space_get_parameters(h, n, ps, None) if n else 0
        if rc:
            return rc, 0
        dists = []
        for i in range(n):
            d = C.c_void_p(0)
            ix = C.c_size_t(99)
            rc = l.configuration_space_get_parameter_distribution(h, i, byref(d), byref(ix))
            if rc:
                return rc, 0
            dists.append([max(0, self.S(d.value)), ix.value])
        cs = (C.c_void_p * max(1, n))()
        m = C.c_size_t(99)
        rc = l.configuration_space_get_conditions(h, n, cs, byref(m)) if n else 0
        if rc:
            return rc, 0
        c1 = []
        for i in range(n):
            e = C.c_void_p(0)
            rc = l.configuration_space_get_condition(h, i, byref(e))
            if rc:
                return rc, 0
            c1.append(self.S(e.value))
        m = C.c_size_t(99)
        rc = l.configuration_space_get_forbidden_clauses(h, 0, None, byref(m))
        if rc:
            return rc, 0
        fa = (C.c_void_p * max(1, m.value))()
        rc = l.configuration_space_get_forbidden_clauses(h, m.value, fa, None) if m.value else 0
        if rc:
            return rc, 0
        f1 = []
        for i in range(m.value):
            e = C.c_void_p(0)
            rc = l.configuration_space_get_forbidden_clause(h, i, byref(e))
            if rc:
                return rc, 0
            f1.append(self.S(e.value))
        if [self.S(fa[i]) for i in range(m.value)] != f1 or [self.S(cs[i]) for i in range(n)] != c1:
            return -100, 0
        return 0, [[self.S(ps[i]) for i in range(n)], dists, c1, f1]

    def op_csget(self, o):
        """single getters, for out of range indexes"""
        l = self.l
        h = self.H(o["s"])
        e = C.c_void_p(0)
        ix = C.c_size_t(99)
        w = o["w"]
        if w == "cond":
            rc = l.configuration_space_get_condition(h, o["i"], byref(e))
        elif w == "forb":
            rc = l.configuration_space_get_forbidden_clause(h, o["i"], byref(e))
        else:
            rc = l.configuration_space_get_parameter_distribution(h, o["i"], byref(e), byref(ix))
            return rc, [max(0, self.S(e.value)), ix.value] if rc == 0 else 0
        return rc, self.S(e.value) if rc == 0 else 0

    def bvalues(self, h, pre="binding"):
        n = C.c_size_t(99)
        rc = self.f(pre, "get_values")(h, 0, None, byref(n))
        if rc:
            return rc, 0
        a = self.darr(n.value + 1)
        rc = self.f(pre, "get_values")(h, n.value + 1, a, None)
        if rc:
            return rc, 0
        if a[n.value].t != TN:
            return -101, 0
        return 0, self.decs(a, n.value)

    def offgrid_clash(self, h):
        """two different off-grid floats of one binding falling in one cell: comparison would be ambiguous"""
        n = C.c_size_t(0)
        self.l.binding_get_values(h, 0, None, byref(n))
        a = self.darr(n.value)
        self.l.binding_get_values(h, n.value, a, None)
        seen = {}
        for i in range(n.value):
            if a[i].t == TF:
                k = json.dumps(f2v(unbits(a[i].v)))
                if seen.setdefault(k, a[i].v) != a[i].v:
                    return True
        return False

    def op_csdefault(self, o):
        c = C.c_void_p(0)
        rc = self.l.configuration_space_get_default_configuration(self.H(o["s"]), byref(c))
        if rc:
            return rc, 0
        self.reg(o["d"], c, "conf")
        return self.bvalues(c.value)

    def script(self, sc, seed=1):
        a = (C.c_uint32 * max(1, len(sc)))(*[x if isinstance(x, int) and x >= 0 else 0 for x in sc])
        self.l.L.vp_rng_script(a, len(sc), seed)

    def op_script(self, o):
        self.script(o["sc"], o.get("seed", 1))
        return 0, 0

    def op_mkrng(self, o):
        r = C.c_void_p(0)
        k = o["k"]
        if k == "script":
            rc = self.l.create_rng_with_type(self.l.L.vp_rng_get_type(), byref(r))
        elif k == "default":
            rc = self.l.create_rng(byref(r))
        else:
            rc = self.l.create_rng_with_type(self.l.L.vp_gsl_type(int(k)), byref(r))
        if rc == 0:
            self.reg(o["d"], r, "rng")
            if "seed" in o:
                rc = self.l.rng_set_seed(r, o["seed"])
        return rc, 0

    def op_cssample(self, o):
        """n samples into slots d[0..n-1]; single form when one=1.
           A failed call must not hand out anything."""
        h = self.H(o["s"])
        n = o["n"]
        a = (C.c_void_p * max(1, n))()
        if o.get("one"):
            rc = self.l.configuration_space_sample(h, a)
        else:
            rc = self.l.configuration_space_samples(h, n, a)
        if rc:
            return rc, [1 for i in range(n) if a[i]]
        out = []
        for i in range(n):
            if not a[i]:
                return -102, 0
            self.reg(o["d"][i], a[i], "conf")
            r2, vs = self.bvalues(a[i])
            sp = C.c_void_p(0)
            self.l.configuration_get_configuration_space(a[i], byref(sp))
            ck = C.c_int32(7)
            r3 = self.l.configuration_space_check_configuration(h, a[i], byref(ck))
            out.append([vs if r2 == 0 else [], self.S(sp.value), r3, ck.value, 1 if self.offgrid_clash(a[i]) else 0])
        return 0, out

    def op_cscover(self, o):
        """the distinct configurations among many samples"""
        h = self.H(o["s"])
        seen = {}
        todo = o["n"]
        while todo > 0:
            n = min(todo, 256)
            todo -= n
            a = (C.c_void_p * n)()
            rc = self.l.configuration_space_samples(h, n, a)
            if rc:
                return rc, 0
            for i in range(n):
                r2, vs = self.bvalues(a[i])
                if r2:
                    return r2, 0
                seen.setdefault(json.dumps(vs), vs)
                self.l.release_object(a[i])
        return 0, [seen[k] for k in sorted(seen)]

    # -- bindings ------------------------------------------------------------
    def op_mkbind(self, o):
        k = o["k"]
        b = C.c_void_p(0)
        vals = o["vals"]
        a = self.arr(vals, bool(o.get("tr")))
        l = self.l
        n = len(vals)
        if o.get("nov"):
            a, n = None, 0
        if k == "conf":
            rc = l.create_configuration(self.H(o["s"]), n, a, byref(b))
        elif k == "feat":
            rc = l.create_features(self.H(o["s"]), n, a, byref(b))
        elif k == "eval":
            rc = l.create_evaluation(self.H(o["s"]), self.H(o["c"]), o["r"], n, a, byref(b))
        elif k == "feval":
            rc = l.create_features_evaluation(self.H(o["s"]), self.H(o["c"]), self.H(o["f"]), o["r"], n, a, byref(b))
        elif k == "teval":
            rc = l.create_tree_evaluation(self.H(o["s"]), self.H(o["c"]), o["r"], n, a, byref(b))
        self.scribble()
        if rc == 0:
            self.reg(o["d"], b, k)
        return rc, (0 if rc == 0 or not b.value else 1)

    def op_binfo(self, o):
        """structure of a binding: context, and for evaluations result, configuration and features"""
        k = self.k[o["b"]]
        n = BINDN[k]
        h = self.H(o["b"])
        c = C.c_void_p(0)
        rc = self.l.binding_get_context(h, byref(c))
        out = [self.S(c.value)]
        if k in ("eval", "feval", "teval"):
            r = C.c_int32(99)
            x, y = C.c_void_p(0), C.c_void_p(0)
            rc = rc or self.f(n, "get_result")(h, byref(r)) or self.f(n, "get_objective_space")(h, byref(x)) or \
                self.f(n, "get_configuration")(h, byref(y))
            out += [r.value, self.S(x.value), self.S(y.value)]
            if k == "feval":
                z = C.c_void_p(0)
                rc = rc or self.l.features_evaluation_get_features(h, byref(z))
                out.append(self.S(z.value))
        else:
            x = C.c_void_p(0)
            rc = rc or self.f(n, "get_" + CTXN["cs" if k == "conf" else "fs"])(h, byref(x))
            out.append(self.S(x.value))
        return rc, out

    def bpre(self, o):
        return "binding" if o.get("g") else BINDN[self.k[o["b"]]]

    def op_bvals(self, o):
        return self.bvalues(self.H(o["b"]), self.bpre(o))

    def op_bcap(self, o):
        n = o["n"]
        a = self.darr(n)
        m = C.c_size_t(99)
        rc = self.f(self.bpre(o), "get_values")(self.H(o["b"]), n, a, byref(m))
        return rc, [m.value, self.decs(a, n)] if rc == 0 else 0

    def op_bget(self, o):
        d = Datum(0, 77, 0)
        h = self.H(o["b"])
        by = o["by"]
        if by == "i":
            rc = self.f(self.bpre(o), "get_value")(h, o["x"], byref(d))
        elif by == "n":
            rc = self.f(self.bpre(o), "get_value_by_name")(h, self.name(o["x"]), byref(d))
        else:
            rc = self.l.binding_get_value_by_parameter(h, self.H(o["x"]), byref(d))
        return rc, self.dec(d) if rc == 0 else 0

    def op_bset(self, o):
        h = self.H(o["b"])
        by = o["by"]
        v = self.enc(o["v"], bool(o.get("tr")))
        if by == "i":
            rc = self.f(self.bpre(o), "set_value")(h, o["x"], v)
        elif by == "n":
            rc = self.l.binding_set_value_by_name(h, self.name(o["x"]), v)
        else:
            rc = self.l.binding_set_value_by_parameter(h, self.H(o["x"]), v)
        self.scribble()
        return rc, 0

    def op_bsets(self, o):
        a = self.arr(o["vals"], bool(o.get("tr")))
        rc = self.l.binding_set_values(self.H(o["b"]), len(o["vals"]), a)
        self.scribble()
        return rc, 0

    def op_bcheck(self, o):
        k = self.k[o["b"]]
        r = C.c_int32(7)
        h = self.H(o["b"])
        sp = o.get("s")
        if sp and k == "conf":
            rc = self.l.configuration_space_check_configuration(self.H(sp), h, byref(r))
        elif sp and k == "feat":
            rc = self.l.features_space_check_features(self.H(sp), h, byref(r))
        else:
            rc = self.f(BINDN[k], "check")(h, byref(r))
        return rc, r.value if rc == 0 else 0

    def op_bcmps(self, o):
        """comparison matrix of a set of bindings of one kind"""
        bs = o["bs"]
        m = []
        for x in bs:
            row = []
            for y in bs:
                r = C.c_int(99)
                rc = self.f(self.bpre({"b": x, "g": o.get("g")}), "cmp")(self.H(x), self.H(y), byref(r))
                if rc:
                    return rc, 0
                row.append((r.value > 0) - (r.value < 0))
            m.append(row)
        return 0, m

    def op_bhashes(self, o):
        out = []
        seen = {}
        for x in o["bs"]:
            r = C.c_uint32(0)
            r2 = C.c_uint32(1)
            f = self.f(self.bpre({"b": x, "g": o.get("g")}), "hash")
            rc = f(self.H(x), byref(r)) or f(self.H(x), byref(r2))
            if rc:
                return rc, 0
            if r.value != r2.value:
                return -103, 0
            out.append(seen.setdefault(r.value, len(seen)))
        return 0, out

    # -- objective spaces and evaluations ------------------------------------
    def op_osobj(self, o):
        h = self.H(o["s"])
        es, ts = o["es"], o["ts"]
        if o.get("one"):
            return self.l.objective_space_add_objective(h, self.H(es[0]), ts[0]), 0
        return self.l.objective_space_add_objectives(h, len(es), self.handles(es), self.own((C.c_int32 * max(1, len(ts)))(*ts))), 0

    def op_osdump(self, o):
        h = self.H(o["s"])
        n = C.c_size_t(99)
        rc = self.l.objective_space_get_objectives(h, 0, None, None, byref(n))
        if rc:
            return rc, 0
        n = n.value
        ea = (C.c_void_p * (n + 1))(*([1] * (n + 1)))
        ta = (C.c_int32 * (n + 1))(*([9] * (n + 1)))
        rc = self.l.objective_space_get_objectives(h, n + 1, ea, ta, None)
        if rc:
            return rc, 0
        one = []
        for i in range(n):
            e = C.c_void_p(0)
            t = C.c_int32(9)
            rc = self.l.objective_space_get_objective(h, i, byref(e), byref(t))
            if rc:
                return rc, 0
            one.append([self.S(e.value), t.value])
        if [[self.S(ea[i]), ta[i]] for i in range(n)] != one or ea[n]:
            return -100, 0
        return 0, one

    def op_osget(self, o):
        e = C.c_void_p(0)
        t = C.c_int32(9)
        rc = self.l.objective_space_get_objective(self.H(o["s"]), o["i"], byref(e), byref(t))
        return rc, [self.S(e.value), t.value] if rc == 0 else 0

    def op_evres(self, o):
        return self.f(BINDN[self.k[o["b"]]], "set_result")(self.H(o["b"]), o["r"]), 0

    def op_evobj(self, o):
        n = BINDN[self.k[o["b"]]]
        h = self.H(o["b"])
        if "i" in o:
            d = Datum(0, 77, 0)
            rc = self.f(n, "get_objective_value")(h, o["i"], byref(d))
            return rc, self.dec(d) if rc == 0 else 0
        m = C.c_size_t(99)
        if "n" in o:
            cap = o["n"]
            a = self.darr(cap)
            rc = self.f(n, "get_objective_values")(h, cap, a, byref(m))
            return rc, [m.value, self.decs(a, cap)] if rc == 0 else 0
        rc = self.f(n, "get_objective_values")(h, 0, None, byref(m))
        if rc:
            return rc, 0
        a = self.darr(m.value)
        rc = self.f(n, "get_objective_values")(h, m.value, a, None)
        return rc, self.decs(a, m.value) if rc == 0 else 0

    def op_evcmp(self, o):
        r = C.c_int32(99)
        rc = self.f(BINDN[self.k[o["x"]]], "compare")(self.H(o["x"]), self.H(o["y"]), byref(r))
        return rc, r.value if rc == 0 else 0

    def op_evcmps(self, o):
        m = []
        for x in o["bs"]:
            row = []
            for y in o["bs"]:
                r = C.c_int32(99)
                rc = self.f(BINDN[self.k[x]], "compare")(self.H(x), self.H(y), byref(r))
                if rc:
                    return rc, 0
                row.append(r.value)
            m.append(row)
        return 0, m

    # -- run -----------------------------------------------------------------
    REFS = ("s", "b", "p", "e", "ctx", "c", "f", "m", "t", "x", "y", "r", "dist", "cs", "fs", "os")
    LREFS = ("ps", "ds", "es", "bs", "give")

    def refers(self, op):
        a = op["a"]
        for k in self.REFS:
            v = op.get(k)
            if isinstance(v, int) and not isinstance(v, bool) and (a, k) not in self.NOREF:
                yield v
        for k in self.LREFS:
            v = op.get(k)
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, int):
                        yield x
        for k in ("n", "vals", "v", "k"):
            v = op.get(k)
            if isinstance(v, list):
                for x in ([v] if v and v[0] in ("o", "oid") else v):
                    if isinstance(x, list) and len(x) == 2 and x[0] in ("o", "oid"):
                        yield x[1]

    # fields of these names that are not slots
    NOREF = {("mkbind", "r"), ("evres", "r"), ("bget", "x"), ("bset", "x"), ("ctxget", "x"), ("mkexpr", "f"), ("cb", "c"),
             ("call", "f"), ("ser", "b"), ("deser", "b"), ("trunc", "b"), ("damage", "b"), ("fdput", "b")}

    def news(self, op):
        d = op.get("d")
        return d if isinstance(d, list) else [] if d is None else [d]

    def run(self, op, errs=False):
        self.dead = []
        self.cblog = []
        self.dels = []
        self.tmp = []
        self.extra = {}
        if any(s in self.never or s >= 100000 and s not in self.ever for s in self.refers(op)) or \
                op.get("by") in ("p", "ps") and any(
                    x in self.never for x in (op["x"] if isinstance(op["x"], list) else [op["x"]])):
            self.never.update(self.news(op))
            return None
        self.l.clear_thread_error()
        self.l.L.vp_fail_disarm()
        oom = op.get("oom")
        if oom is not None:
            self.l.L.vp_fail_arm(oom)
        try:
            f = getattr(self, "op_" + op["a"], None)
            if f is None:
                for m in self.extra_modules:
                    f = getattr(m, "op_" + op["a"], None)
                    if f:
                        break
                rc, out = f(self, op)
            else:
                rc, out = f(op)
        except Drop:
            self.never.update(x for x in self.news(op) if x not in self.h)
            return None
        except (KeyError, Skip) as e:
            rc, out = -999, 0
            if os.environ.get("VP_DEBUG"):
                import traceback
                traceback.print_exc()
        except Exception as e:
            rc, out = -998, 0
            if os.environ.get("VP_DEBUG"):
                import traceback
                traceback.print_exc()
        if oom is not None:
            self.l.L.vp_fail_disarm()
        te = self.l.take_error()
        self.scribble()
        if oom is not None and rc == -17:       # the same again, with the next allocation failing
            self.todo = op.get("then", []) + [dict(op, oom=oom + 1)]
        elif rc != 0:
            self.never.update(x for x in self.news(op) if x not in self.h)
        ev = dict(op)
        ev.pop("then", None)
        ev["rc"] = rc
        ev["o"] = out
        ev.update(self.extra)
        if errs and "te" not in ev:
            ev["te"] = list(te) if te else [0, 0, 0]
        if self.dead:
            ev["dead"] = sorted(self.dead)
        if self.cblog:
            ev["cbs"] = self.cblog
        if self.dels:
            ev["dels"] = sorted(self.dels)
        return ev

OPTIME = int(os.environ.get("VP_OPTIME", "60"))

def main():
    import signal
    ops, out = sys.argv[1], sys.argv[2]
    first = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    lib = Lib(os.environ["VP_LIB"])
    if lib.init() != 0:
        sys.exit(98)
    it = Interp(lib)
    sys.modules["interp"] = sys.modules["__main__"]
    import interp2, interp4, interp3, interp5
    it.extra_modules = [interp2, interp4, interp3, interp5]
    for m in it.extra_modules:
        m.init(it)
    fo = open(out, "a", buffering=1 << 16)
    for i, line in enumerate(open(ops)):
        if i < first:
            continue
        tr = json.loads(line)
        fo.write(json.dumps({"a": "begin", "id": i}) + "\n")
        fo.flush()
        it.reset()
        errs = bool(tr and tr[0].get("errs"))
        it.live0 = lib.L.vp_get_live()
        todo = list(reversed(tr))
        while todo:
            signal.alarm(OPTIME)        # an operation that never returns ends the process
            if os.environ.get("VP_ECHO"):
                print("ECHO", json.dumps(todo[-1]), file=sys.stderr, flush=True)
            ev = it.run(todo.pop(), errs)
            if ev is not None:
                fo.write(json.dumps(ev) + "\n")
            if it.todo:
                todo += reversed(it.todo)
                it.todo = []
        fo.flush()
    signal.alarm(0)
    fo.close()

if __name__ == "__main__":
    main()
