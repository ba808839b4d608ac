---------------------------------- MODULE CCS ----------------------------------
(* The library as a state machine.  A state st has                            *)
(*   st.h : live objects (slot -> record),   st.u : references the user holds *)
(*   st.cb : destroy callbacks, in registration order,   st.ud : user data    *)
(*   st.sc : serialisation callbacks,   st.bl : serialised objects,           *)
(*   st.fd : descriptors,   st.er : errors of the threads                     *)
(* Step(st, ev) gives the states reached by event ev, an operation together   *)
(* with what was observed: ev.a the operation, ev.rc its result code, ev.o    *)
(* its output.                                                                *)
EXTENDS CCSErr

St0 == [h |-> <<>>, u |-> <<>>, cb |-> <<>>, ud |-> <<>>, sc |-> <<>>, bl |-> <<>>, fd |-> <<>>, er |-> Err0]
Opt(o, f, d) == IF f \in DOMAIN o THEN o[f] ELSE d
R(st, rc, out) == [st |-> st, rc |-> rc, o |-> out]
Fail(st, rc) == R(st, rc, 0)

(* ---- lifetime ------------------------------------------------------------ *)
ValKids(v) == IF v[1] = "o" THEN {v[2]} ELSE {}
Kids(x) ==
  (CASE x.k = "expr" -> UNION {ValKids(x.n[i]) : i \in 1..Len(x.n)}
     [] x.k = "dist" -> IF x.dk \in {"mix", "mul"} THEN Range(x.ds) ELSE {}
     [] x.k = "cs" -> Range(x.ps) \cup {x.ds[i][1] : i \in 1..Len(x.ds)} \cup Range(x.cond) \cup Range(x.forb) \cup {x.rng}
     [] x.k = "fs" -> Range(x.ps)
     [] x.k = "os" -> Range(x.ps) \cup {x.objs[i][1] : i \in 1..Len(x.objs)}
     [] x.k \in {"conf", "feat"} -> {x.ctx}
     [] x.k \in {"eval", "teval"} -> {x.ctx, x.c}
     [] x.k = "feval" -> {x.ctx, x.c, x.f}
     [] x.k = "map" -> MapKids(x)
     [] x.k = "tree" -> Range(x.ch)
     [] x.k = "tspace" -> {x.tree, x.rng}
     [] x.k = "tconf" -> {x.sp}
     [] x.k \in {"tuner", "ftuner", "ttuner"} -> TunerKids(x)
     [] OTHER -> {}) \ {0}
RECURSIVE Close(_, _, _)
Close(h, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET new == (UNION {Kids(h[s]) : s \in todo}) \ seen IN Close(h, new, seen \cup new)
Held(st) == {s \in DOMAIN st.u : st.u[s] > 0}
Live(st) == LET r == Held(st) IN Close(st.h, r, r)
Cut(f, keep) == [s \in DOMAIN f \cap keep |-> f[s]]
(* a tree whose parent died is a root again *)
Orphan(h, keep) == [s \in keep |-> IF h[s].k = "tree" THEN
                      (IF h[s].par # 0 /\ h[s].par \notin keep THEN [h[s] EXCEPT !.par = 0, !.ix = 0] ELSE h[s]) ELSE h[s]]
Collect(st) == LET k == Live(st) IN
  IF k = DOMAIN st.h THEN st
  ELSE [st EXCEPT !.h = Orphan(@, k), !.u = Cut(@, k), !.cb = Cut(@, k), !.ud = Cut(@, k), !.sc = Cut(@, k)]

New(st, s, x) == [st EXCEPT !.h = (s :> x) @@ @, !.u = (s :> 1) @@ @]
Upd(st, s, x) == [st EXCEPT !.h[s] = x]
Ref(st, s, n) == [st EXCEPT !.u = (s :> (n + (IF s \in DOMAIN st.u THEN st.u[s] ELSE 0))) @@ @]

Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
Callbacks(st, s) == IF s \in DOMAIN st.cb THEN st.cb[s] ELSE <<>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* callbacks seen: those of each dead object in reverse order of registration *)
CbsOk(st, dead, cbs) ==
  /\ Len(cbs) = LET RECURSIVE Sum(_)
                    Sum(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN Len(Callbacks(st, d)) + Sum(D \ {d})
                IN Sum(dead)
  /\ \A d \in dead : LET mine == SelectSeq(cbs, LAMBDA e : e[1] = d) IN
                     [i \in 1..Len(mine) |-> mine[i][2]] = Rev(Callbacks(st, d))

SortSet(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => f[i] < f[j]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

Pad(s, n, x) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE x]

(* ---- deterministic operations --------------------------------------------- *)
ExLife(st, o) ==
  CASE o.a = "ret" -> R(Ref(st, o.s, 1), 0, 0)
    [] o.a = "rel" -> R(Collect(Ref(st, o.s, -1)), 0, 0)
    [] o.a \in {"retnull", "relnull"} -> Fail(st, INVALID_OBJECT)
    [] o.a = "cb" -> R([st EXCEPT !.cb = (o.s :> Append(Callbacks(st, o.s), o.c)) @@ @], 0, 0)
    [] o.a = "otype" -> R(st, 0, st.h[o.s].k)
    [] o.a = "sud" -> R([st EXCEPT !.ud = (o.s :> o.v) @@ @], 0, 0)
    [] o.a = "gud" -> R(st, 0, IF o.s \in DOMAIN st.ud THEN st.ud[o.s] ELSE 0)

ExParam(st, o) ==
  LET h == st.h  p == h[o.p]
      vs(f) == [i \in 1..Len(o[f]) |-> V(o[f][i])] IN
  CASE o.a = "pinfo" -> R(st, 0, ParamInfo(p))
    [] o.a = "pgetcap" -> IF p.pk # o.k THEN Fail(st, INVALID_PARAMETER)
                          ELSE IF o.n < Len(p.vals) THEN Fail(st, INVALID_VALUE)
                          ELSE R(st, 0, <<Len(p.vals), Pad(p.vals, o.n, None)>>)
    [] o.a = "pcheck" -> R(st, 0, [i \in 1..Len(o.vs) |-> IF InDomain(p, V(o.vs[i])) THEN 1 ELSE 0])
    [] o.a = "pval" -> R(st, 0, [i \in 1..Len(o.vs) |-> <<IF InDomain(p, V(o.vs[i])) THEN 1 ELSE 0, Validated(p, V(o.vs[i]))>>])
    [] o.a = "pcmp" -> IF p.pk # "ord" THEN Fail(st, INVALID_PARAMETER)
                       ELSE IF ~InDomain(p, V(o.v)) \/ ~InDomain(p, V(o.w)) THEN Fail(st, INVALID_VALUE)
                       ELSE R(st, 0, OrdCmp(p, V(o.v), V(o.w)))
    [] o.a = "pint" -> R(st, 0, IF p.pk = "str" THEN Unk ELSE SamplingInterval(p))

ExEnv(h, o) ==
  [ps |-> IF o.ctx = 0 THEN <<>> ELSE h[o.ctx].ps, vals |-> [i \in 1..Len(o.vals) |-> V(o.vals[i])],
   ctx |-> o.ctx # 0, hv |-> ~("nv" \in DOMAIN o)]
Eval1(st, r) == IF IsErr(r) THEN Fail(st, r[2]) ELSE IF IsUnk(r) THEN R(st, ANYRC, Unk) ELSE R(st, 0, r[2])
ExExpr(st, o) ==
  LET h == st.h  e == h[o.e]  ps == Params(h, <<"o", o.e>>) IN
  CASE o.a = "einfo" -> R(st, 0, Desc(h, <<"o", o.e>>))
    [] o.a = "enodes" -> LET n == IF e.t \in {"lit", "var"} THEN 0 ELSE Len(e.n) IN
                         IF o.n < n THEN Fail(st, INVALID_VALUE) ELSE
                         R(st, 0, <<n, [i \in 1..n |-> IF (IF e.n[i][1] = "o" THEN h[e.n[i][2]].k = "expr" ELSE FALSE) THEN e.n[i][2] ELSE -1],
                                    [i \in 1..(o.n - n) |-> 0]>>)
    [] o.a = "elit" -> IF e.t # "lit" THEN Fail(st, INVALID_EXPRESSION) ELSE R(st, 0, e.n[1])
    [] o.a = "evar" -> IF e.t # "var" THEN Fail(st, INVALID_EXPRESSION) ELSE R(st, 0, e.n[1][2])
    [] o.a = "eparams" -> IF Opt(o, "n", 1000) < Cardinality(ps) THEN Fail(st, INVALID_VALUE)
                          ELSE R(st, 0, Sorted(ps))
    [] o.a = "eeval" -> Eval1(st, EvalNode(h, <<"o", o.e>>, ExEnv(h, o)))
    [] o.a = "elist" -> IF e.t # "list" THEN Fail(st, INVALID_EXPRESSION)
                        ELSE IF o.i >= Len(e.n) THEN Fail(st, OUT_OF_BOUNDS)
                        ELSE Eval1(st, EvalNode(h, e.n[o.i + 1], ExEnv(h, o)))
    [] o.a = "echk" -> IF ps = {} THEN R(st, 0, 0)
                       ELSE IF o.ctx = 0 THEN Fail(st, INVALID_VALUE)
                       ELSE IF ps \subseteq Range(h[o.ctx].ps) THEN R(st, 0, 0)
                       ELSE Fail(st, INVALID_PARAMETER)

ExCtx(st, o) ==
  LET h == st.h  c == h[o.s] IN
  CASE o.a = "ctxadd" -> LET r == AddAll(h, c, o.ps, Opt(o, "ds", <<>>), 1) IN R(Upd(st, o.s, r[2]), r[1], 0)
    [] o.a = "ctxdump" -> R(st, 0, <<c.name, Len(c.ps), c.ps, c.ps>>)
    [] o.a = "ctxget" ->
       (CASE o.by \in {"i", "n"} -> LET l == Locate(h, c, o.by, o.x) IN
                                  IF l[1] # 0 THEN Fail(st, l[1]) ELSE R(st, 0, c.ps[l[2]])
          [] o.by = "ni" -> LET l == Locate(h, c, "n", o.x) IN IF l[1] # 0 THEN Fail(st, l[1]) ELSE R(st, 0, l[2] - 1)
          [] o.by = "p" -> LET l == Locate(h, c, "p", o.x) IN IF l[1] # 0 THEN Fail(st, l[1]) ELSE R(st, 0, l[2] - 1)
          [] o.by = "ps" -> LET bad == {i \in 1..Len(o.x) : Locate(h, c, "p", o.x[i])[1] # 0} IN
                            IF bad = {} THEN R(st, 0, [i \in 1..Len(o.x) |-> Locate(h, c, "p", o.x[i])[2] - 1])
                            ELSE Fail(st, Locate(h, c, "p", o.x[CHOOSE i \in bad : \A j \in bad : i <= j])[1])
          [] o.by = "cap" -> IF o.x < Len(c.ps) THEN Fail(st, INVALID_VALUE) ELSE R(st, 0, Pad(c.ps, o.x, 0)))
    [] o.a = "ctxval" -> IF o.i >= Len(c.ps) THEN Fail(st, OUT_OF_BOUNDS)
                         ELSE IF InDomain(h[c.ps[o.i + 1]], V(o.v)) THEN R(st, 0, V(o.v)) ELSE Fail(st, INVALID_VALUE)

ExCS(st, o) ==
  LET h == st.h  c == h[o.s] IN
  CASE o.a = "cscond" -> LET rc == SetCondRC(h, c, o.i, o.e) IN
         IF rc # 0 THEN Fail(st, rc) ELSE R(Upd(st, o.s, [c EXCEPT !.cond[o.i + 1] = o.e]), 0, 0)
    [] o.a = "cssetdist" -> LET rc == SetDistRC(h, c, o.dist, o.ix) IN
         IF rc # 0 THEN Fail(st, rc) ELSE R(Collect(Upd(st, o.s, SetDist(h, c, o.dist, o.ix))), 0, 0)
    [] o.a = "cssetrng" -> IF BadRef(h, o.r, "rng") THEN Fail(st, INVALID_OBJECT)
                           ELSE R(Collect(Upd(st, o.s, [c EXCEPT !.rng = o.r])), 0, 0)
    [] o.a = "csgetrng" -> R(st, 0, c.rng)
    [] o.a = "csdump" -> R(st, 0, <<c.ps, [i \in 1..Len(c.ps) |-> <<c.ds[i][1], c.ds[i][2]>>], c.cond, c.forb>>)
    [] o.a = "csget" -> IF o.i >= (IF o.w = "forb" THEN Len(c.forb) ELSE Len(c.ps)) THEN Fail(st, OUT_OF_BOUNDS)
                        ELSE R(st, 0, CASE o.w = "cond" -> c.cond[o.i + 1] [] o.w = "forb" -> c.forb[o.i + 1]
                                        [] OTHER -> <<c.ds[o.i + 1][1], c.ds[o.i + 1][2]>>)

ExBind(st, o) ==
  LET h == st.h  b == h[o.b] IN
  CASE o.a = "binfo" -> R(st, 0, BindInfo(b))
    [] o.a = "bvals" -> R(st, 0, b.vals)
    [] o.a = "bcap" -> IF o.n < Len(b.vals) THEN Fail(st, INVALID_VALUE) ELSE R(st, 0, <<Len(b.vals), Pad(b.vals, o.n, None)>>)
    [] o.a = "bget" -> LET l == BLocate(h, b, o.by, o.x) IN IF l[1] # 0 THEN Fail(st, l[1]) ELSE R(st, 0, b.vals[l[2]])
    [] o.a = "bset" -> LET l == BLocate(h, b, o.by, o.x) IN
         IF l[1] # 0 THEN Fail(st, l[1])
         ELSE IF Opt(o, "tr", 0) = 1 /\ ~InDomain(h[h[b.ctx].ps[l[2]]], V(o.v)) THEN Fail(st, INVALID_VALUE)
         ELSE R(Upd(st, o.b, [b EXCEPT !.vals[l[2]] = V(o.v)]), 0, 0)
    [] o.a = "bsets" ->
         IF Len(o.vals) # Len(b.vals) THEN Fail(st, INVALID_VALUE)
         ELSE LET bad == {i \in 1..Len(b.vals) : Opt(o, "tr", 0) = 1 /\ ~InDomain(h[h[b.ctx].ps[i]], V(o.vals[i]))}
                  upto == IF bad = {} THEN Len(b.vals) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
              IN R(Upd(st, o.b, [b EXCEPT !.vals = [i \in 1..Len(b.vals) |-> IF i <= upto THEN V(o.vals[i]) ELSE @[i]]]),
                   IF bad = {} THEN 0 ELSE INVALID_VALUE, 0)
    [] o.a = "evres" -> R(Upd(st, o.b, [b EXCEPT !.r = o.r]), 0, 0)
    [] o.a = "evobj" ->
         LET n == Len(h[b.ctx].objs) IN
         IF "i" \in DOMAIN o THEN (IF o.i >= n THEN Fail(st, OUT_OF_BOUNDS) ELSE Eval1(st, ObjValue(h, b, o.i + 1)))
         ELSE IF Opt(o, "n", 1000) < n THEN Fail(st, INVALID_VALUE)
         ELSE LET vs == [i \in 1..n |-> ObjValue(h, b, i)]
                  es == {i \in 1..n : IsErr(vs[i])} IN
              IF es # {} THEN Fail(st, vs[CHOOSE i \in es : \A j \in es : i <= j][2])
              ELSE IF \E i \in 1..n : IsUnk(vs[i]) THEN R(st, ANYRC, Unk)
              ELSE LET out == [i \in 1..n |-> vs[i][2]] IN
                   R(st, 0, IF "n" \in DOMAIN o THEN <<n, Pad(out, o.n, None)>> ELSE out)

RECURSIVE AddObjs(_, _, _, _, _)
AddObjs(h, c, es, ts, i) ==
  IF i > Len(es) THEN <<0, c>>
  ELSE IF BadRef(h, es[i], "expr") THEN <<INVALID_OBJECT, c>>
  ELSE IF ~AllIn(h, c, es[i]) THEN <<INVALID_PARAMETER, c>>
  ELSE AddObjs(h, [c EXCEPT !.objs = Append(@, <<es[i], ts[i]>>)], es, ts, i + 1)
ExOS(st, o) ==
  LET h == st.h  c == h[o.s] IN
  CASE o.a = "osobj" -> LET r == AddObjs(h, c, o.es, o.ts, 1) IN R(Upd(st, o.s, r[2]), r[1], 0)
    [] o.a = "osdump" -> R(st, 0, c.objs)
    [] o.a = "osget" -> IF o.i >= Len(c.objs) THEN Fail(st, OUT_OF_BOUNDS) ELSE R(st, 0, c.objs[o.i + 1])

Make(st, d, rc, x) == IF rc # 0 THEN Fail(st, rc) ELSE R(New(st, d, x), 0, 0)

ExDist(st, o) ==
  LET h == st.h IN
  CASE o.a = "dover" -> LET b == DTypes(h, o.s) IN
         IF \E i \in 1..Len(b) : o.iv[i][1][1] # b[i] THEN Fail(st, INVALID_TYPE) ELSE R(st, 0, Over(h, o.s, o.iv))
    [] o.a = "pdefd" -> IF h[o.p].pk = "str" THEN Fail(st, UNSUPPORTED_OPERATION)
                        ELSE R(New(st, o.d, DefaultDist(h[o.p])), 0, 0)
    [] o.a = "pconv" -> LET p == h[o.p]
                            cv(v) == IF p.pk = "num" THEN Validated(p, v)
                                     ELSE IF v[2] >= 0 /\ v[2] < Len(p.vals) THEN p.vals[v[2] + 1] ELSE Inactive IN
                        IF p.pk = "str" THEN Fail(st, UNSUPPORTED_OPERATION)
                        ELSE R(st, 0, [i \in 1..Len(o.vs) |-> cv(o.vs[i])])

(* ---- serialisation --------------------------------------------------------- *)
(* cb: what the user's callback adds to the data it writes, 0: no callback *)
ExSer(st, o) ==
  CASE o.a = "ser" -> IF Opt(o, "urc", 0) # 0 THEN Fail(st, o.urc) ELSE LET k == Close(st.h, {o.s}, {o.s}) IN
         R([st EXCEPT !.bl = (o.b :> [root |-> o.s, h |-> Cut(st.h, k), ud |-> Cut(st.ud, k), sc |-> Cut(st.sc, k), cb |-> o.cb, n |-> o.n]) @@ @],
           0, <<1, 1, 1, 1>>)
    [] o.a = "scb" -> R([st EXCEPT !.sc = (o.s :> o.v) @@ @], 0, 0)
    [] o.a = "twin" -> R(st, 0, 1)
    [] o.a = "fdopen" -> R([st EXCEPT !.fd = (o.q :> NewStream(o)) @@ @], 0, 0)
    [] o.a = "fdwrong" -> Fail(st, INVALID_VALUE)
    [] o.a \in {"trunc", "small", "damage"} -> R(st, 0, <<>>)
SerOps == {"ser", "scb", "twin", "trunc", "small", "damage", "fdopen", "fdwrong"}

LifeOps == {"ret", "rel", "retnull", "relnull", "cb", "otype", "sud", "gud"}
ParamOps == {"pinfo", "pgetcap", "pcheck", "pval", "pcmp", "pint"}
ExprOps == {"einfo", "enodes", "elit", "evar", "eparams", "eeval", "elist", "echk"}
CtxOps == {"ctxadd", "ctxdump", "ctxget", "ctxval"}
CSOps == {"cscond", "cssetdist", "cssetrng", "csgetrng", "csdump", "csget"}
BindOps == {"binfo", "bvals", "bcap", "bget", "bset", "bsets", "evres", "evobj"}
OSOps == {"osobj", "osdump", "osget"}
DistOps == {"dover", "pdefd", "pconv"}

Exec(st, o) ==
  CASE o.a \in LifeOps -> ExLife(st, o)
    [] o.a = "mkparam" -> Make(st, o.d, MkParamRC(o), IF MkParamRC(o) = 0 THEN MkParam(o) ELSE 0)
    [] o.a \in ParamOps -> ExParam(st, o)
    [] o.a = "mkexpr" -> Make(st, o.d, MkExprRC(st.h, o), MkExpr(o))
    [] o.a \in ExprOps -> ExExpr(st, o)
    [] o.a = "mkdist" -> Make(st, o.d, MkDistRC(st.h, o), MkDist(o))
    [] o.a \in DistOps -> ExDist(st, o)
    [] o.a = "mkrng" -> R(New(st, o.d, [k |-> "rng"]), 0, 0)
    [] o.a = "mkctx" -> R(New(st, o.d, MkCtx(o)), 0, 0)
    [] o.a \in CtxOps -> ExCtx(st, o)
    [] o.a \in CSOps -> ExCS(st, o)
    [] o.a = "mkbind" -> LET b == [tr |-> Opt(o, "tr", 0), nov |-> Opt(o, "nov", 0)] @@ o IN
                         LET rc == MkBindRC(st.h, b) IN Make(st, o.d, rc, IF rc = 0 THEN MkBind(st.h, b) ELSE 0)
    [] o.a \in BindOps -> ExBind(st, o)
    [] o.a \in OSOps -> ExOS(st, o)
    [] o.a = "script" -> R(st, 0, 0)
    [] o.a = "mkmap" -> R(New(st, o.d, [k |-> "map", es |-> <<>>]), 0, 0)
    [] o.a \in MapOps -> LET r == MapExec(st.h[o.m], o) IN R(Collect(Upd(st, o.m, r[3])), r[1], r[2])
    [] o.a = "mktree" -> LET rc == MkTreeRC(o) IN Make(st, o.d, rc, IF rc = 0 THEN MkTree(o) ELSE 0)
    [] o.a \in TreeOps -> LET r == TreeExec(st.h, o) IN R([st EXCEPT !.h = r[3]], r[1], r[2])
    [] o.a = "mktspace" -> Make(st, o.d, IF BadRef(st.h, o.t, "tree") THEN INVALID_OBJECT ELSE 0,
                                [k |-> "tspace", name |-> o.name, tree |-> o.t, rng |-> 0, dyn |-> o.dyn, st |-> 0])
    [] o.a = "tsinfo" -> R(st, 0, TSpaceInfo(st.h[o.s]))
    [] o.a = "mktconf" -> Make(st, o.d, IF BadRef(st.h, o.s, "tspace") THEN INVALID_OBJECT ELSE 0,
                               [k |-> "tconf", sp |-> o.s, pos |-> o.p])
    [] o.a \in SerOps -> ExSer(st, o)
    [] o.a = "mkut" -> Make(st, o.d, MkUserRC(st.h, o), MkUser(o))
    [] o.a \in {"utst", "tsst"} -> R(Upd(st, o.s, [st.h[o.s] EXCEPT !.st = o.v]), 0, 0)
    [] o.a = "utdata" -> IF st.h[o.s].usr = -1 THEN Fail(st, IF st.h[o.s].k = "ftuner" THEN INVALID_FEATURES_TUNER ELSE INVALID_TUNER) ELSE R(st, 0, st.h[o.s].dat)
    [] o.a = "mktuner" -> Make(st, o.d, MkTunerRC(st.h, o), MkTuner(o))
    [] o.a \in TunerOps -> LET r == TunerExec(st.h, o) IN R(Upd(st, o.s, r[3]), r[1], r[2])

(* ---- operations with several acceptable outcomes --------------------------- *)
Y(ok, st, x) == [ok |-> ok, st |-> st, x |-> x]
Same(a, b) == ToString(a) = ToString(b)

AccSamples(st, ev, sp) ==
  LET h == st.h  c == h[sp]
      (* bad: the random stream gives that many invalid configurations, then only valid ones; there are 100 tries per configuration *)
      rcs == IF "bad" \notin DOMAIN ev THEN SampleRCs(h, c)
             ELSE IF ev.bad + ev.n <= 100 * ev.n THEN {0} ELSE {0, SAMPLING_UNSUCCESSFUL} IN
  IF ev.n = 0 THEN Y(ev.rc = 0 /\ Same(ev.o, <<>>), st, <<"no sample">>)
  ELSE IF ev.rc # 0 THEN Y(ev.rc \in rcs /\ Same(ev.o, <<>>), st, <<"results", rcs, "nothing handed out">>)
  ELSE LET RECURSIVE Add(_, _)
           Add(s, i) == IF i > ev.n THEN s
                        ELSE Add(New(s, ev.d[i], [k |-> "conf", ctx |-> sp, vals |-> ev.o[i][1]]), i + 1)
       IN IF 0 \notin rcs \/ Len(ev.o) # ev.n THEN Y(FALSE, st, <<"results", rcs>>)
          ELSE Y(\A i \in 1..ev.n : /\ (ev.o[i][5] = 1 \/ GoodSample(h, c, ev.o[i][1]))
                                    /\ ev.o[i][2] = sp /\ ev.o[i][3] = 0 /\ ev.o[i][4] = 1,
                 Add(st, 1), <<"valid samples">>)
(* many samples of a small space, as the set of distinct configurations seen *)
AccCover(st, ev) ==
  LET c == st.h[ev.s]  all == AllValid(st.h, c) IN
  IF ev.rc # 0 THEN Y(ev.rc \in SampleRCs(st.h, c), st, SampleRCs(st.h, c))
  ELSE Y(Range(ev.o) = all, st, <<"all of", all>>)

AccDist(st, ev) ==
  LET h == st.h IN
  CASE ev.a = "dinfo" ->
       LET x == h[ev.s] IN
       Y(/\ ev.rc = 0 /\ Same(ev.o[1], DistInfo(h, ev.s))
         /\ (x.dk \in {"rou", "mix"} => WeightsOk(x.ws, ev.o[2])), st, DistInfo(h, ev.s))
    [] ev.a = "dsamp" ->
       IF ev.form = "str" /\ ev.stride < Dim(h, ev.s) THEN Y(ev.rc = INVALID_VALUE, st, INVALID_VALUE)
       ELSE Y(ev.rc = 0 /\ Len(ev.o) = ev.n /\ \A i \in 1..ev.n : InDist(h, ev.s, ev.o[i]), st, <<"in the support">>)
    [] ev.a = "dcover" ->
       Y(ev.rc = 0 /\ (LET x == h[ev.s] IN
           Range(ev.o) = {v \in {<<"i", ev.lo + j>> : j \in 0..ev.n} : InComp(h, ev.s, 1, v)}), st, <<"the whole support">>)
    [] ev.a \in {"psamp", "dpsamp"} ->
       LET ps == IF ev.a = "psamp" THEN <<ev.p>> ELSE ev.ps
           rcs == IF ev.n = 0 THEN {0}
                  ELSE IF \E i \in 1..Len(ps) : h[ps[i]].pk = "str" THEN {UNSUPPORTED_OPERATION}
                  ELSE PSampleRCs(h, ev.s, ps) IN
       IF ev.a = "psamp" /\ Dim(h, ev.s) # 1 THEN Y(ev.rc = INVALID_DISTRIBUTION, st, INVALID_DISTRIBUTION)
       ELSE Y(/\ ev.rc \in rcs
              /\ ev.rc = 0 => Len(ev.o) = ev.n /\ \A i \in 1..ev.n : InDistParams(h, ev.s, ps, ev.o[i]), st,
              <<"results", rcs, "in domain and support">>)

AccMisc(st, ev) ==
  LET h == st.h IN
  CASE ev.a = "checkv" ->
       LET r == CheckVals(h, h[ev.s], [i \in 1..Len(ev.vals) |-> V(ev.vals[i])]) IN
       Y(r.unk \/ (IF ev.rc = 0 THEN ev.o \in r.can ELSE ev.rc \in r.errs), st, r)
    [] ev.a = "bcheck" ->
       LET b == h[ev.b]  sp == Opt(ev, "s", b.ctx) IN
       IF sp # b.ctx THEN LET e == IF b.k = "feat" THEN INVALID_FEATURES ELSE INVALID_CONFIGURATION IN Y(ev.rc = e, st, e)
       ELSE LET r == CheckVals(h, h[sp], b.vals) IN
            Y(r.unk \/ (IF ev.rc = 0 THEN ev.o \in r.can ELSE ev.rc \in r.errs), st, r)
    [] ev.a = "csdefault" ->
       LET dv == DefaultValues(h, h[ev.s]) IN
       IF dv[1] = "err" THEN Y(ev.rc \in dv[2], st, dv)
       ELSE IF ev.rc # 0 THEN Y(dv[1] = "unk", st, dv)
       ELSE Y(dv[1] = "unk" \/ Same(ev.o, dv[2]), New(st, ev.d, [k |-> "conf", ctx |-> ev.s, vals |-> ev.o]), dv)
    [] ev.a = "csforb" ->
       LET RECURSIVE Go(_, _, _)
           Go(s, i, left) ==  \* the clauses up to the first failing one are added
             IF i > Len(ev.es) THEN Y(ev.rc = 0, s, 0)
             ELSE LET c == s.h[ev.s]  rcs == IF BadRef(h, ev.es[i], "expr") THEN {INVALID_OBJECT} ELSE ForbRCs(s.h, c, ev.es[i]) IN
                  IF rcs = {} THEN Y(TRUE, s, "?")
                  ELSE IF 0 \in rcs THEN Go(Upd(s, ev.s, [c EXCEPT !.forb = Append(@, ev.es[i])]), i + 1, 0)
                  ELSE Y(ev.rc \in rcs, s, rcs)
       IN Go(st, 1, 0)
    [] ev.a = "bcmps" -> Y(ev.rc = 0 /\ GoodOrder(Len(ev.bs), ev.o, LAMBDA i, j : SameB(h, ev.bs[i], ev.bs[j])), st, <<"a total order">>)
    [] ev.a = "bhashes" ->
       Y(ev.rc = 0 /\ Len(ev.o) = Len(ev.bs)
         /\ \A i, j \in 1..Len(ev.bs) : SameB(h, ev.bs[i], ev.bs[j]) => ev.o[i] = ev.o[j], st, <<"equal bindings hash equally">>)
    [] ev.a = "evcmp" -> LET r == Compare(h, ev.x, ev.y) IN Y(r = {} \/ <<ev.rc, ev.o>> \in r, st, r)
    [] ev.a = "end" ->
       LET left == Held(st) IN
       Y(/\ ev.rc = 0 /\ ev.o = 0
         /\ \A s \in left : Count(ev.ord, s) = st.u[s]
         /\ Range(ev.ord) \subseteq left, [st EXCEPT !.h = <<>>, !.u = <<>>], <<"nothing left">>)

DistAcc == {"dinfo", "dsamp", "dcover", "psamp", "dpsamp"}
MiscAcc == {"checkv", "bcheck", "csdefault", "csforb", "bcmps", "bhashes", "evcmp", "end"}

(* tree spaces: positions *)
AccTSamples(st, ev, sp) ==
  LET h == st.h  x == h[sp]
      RECURSIVE Add(_, _)
      Add(s, i) == IF i > ev.n THEN s ELSE Add(New(s, ev.d[i], [k |-> "tconf", sp |-> sp, pos |-> ev.o[i]]), i + 1)
  IN IF ev.n = 0 THEN Y(ev.rc = 0, st, 0)
     ELSE IF SumT(h, x.tree)[2] = 0 THEN Y(ev.rc = INVALID_DISTRIBUTION /\ Same(ev.o, <<>>), st, INVALID_DISTRIBUTION)
     ELSE IF ev.rc # 0 \/ Len(ev.o) # ev.n THEN Y(FALSE, st, <<"samples">>)
     ELSE Y(\A i \in 1..ev.n : GoodPath(h, x, x.tree, ev.o[i], 1), Add(st, 1), <<"a path of positive weight">>)
AccTree(st, ev) ==
  LET h == st.h IN
  CASE ev.a = "mdump" -> Y(ev.rc = 0 /\ GoodDump(h[ev.m], ev.o), st, h[ev.m].es)
    [] ev.a = "tsamp" -> IF ev.n = 0 THEN Y(ev.rc \in {0, INVALID_DISTRIBUTION}, st, 0)
         ELSE IF SumT(h, ev.s)[2] = 0 THEN Y(ev.rc = INVALID_DISTRIBUTION, st, INVALID_DISTRIBUTION)
         ELSE Y(ev.rc = 0 /\ Len(ev.o) = ev.n
                /\ \A i \in 1..ev.n : ev.o[i] <= h[ev.s].ar /\ SlotW(h, ev.s, ev.o[i])[2] > 0, st, <<"weighted branches">>)
    [] ev.a = "tfreq" -> IF SumT(h, ev.s)[2] = 0 THEN Y(ev.rc = INVALID_DISTRIBUTION, st, INVALID_DISTRIBUTION)
         ELSE Y(ev.rc = 0 /\ GoodFreq(h, ev.s, ev.n, ev.tol, ev.o), st, [i \in 0..h[ev.s].ar |-> SlotW(h, ev.s, i)])
    [] ev.a = "tssample" -> AccTSamples(st, ev, ev.s)
    [] OTHER -> (* operations on positions of a tree space *)
         LET r == TSpaceExec(h, ev) IN
         Y(/\ ev.rc = r[1] /\ (r[1] # 0 \/ Same(ev.o, r[2]))
           /\ Same(ev.mat, r[4]), [st EXCEPT !.h = r[3]], <<r[1], r[2], r[4]>>)
TreeAcc == {"mdump", "tsamp", "tfreq", "tssample"} \cup TSpaceOps \cup TConfOps

(* ask for configurations, or for a suggestion *)
AccTuner(st, ev) ==
  LET h == st.h  x == h[ev.s]
      f == Opt(ev, "f", 0)
      frc == IF x.k = "ftuner" THEN FeatRC(h, x, f) ELSE 0
      fresh(e) == IF x.k = "ttuner" THEN AccTSamples(st, e, x.cs) ELSE AccSamples(st, e, x.cs)
      opts == {h[e].c : e \in Range(Matching(h, x.opt, f))}
      one(e) == [a |-> "x", n |-> 1, rc |-> e.rc, d |-> <<e.d>>, o |-> IF e.rc = 0 THEN <<e.o[2]>> ELSE e.o]
  IN IF frc # 0 THEN Y(ev.rc = frc, st, frc)
     ELSE IF ev.a = "ask" THEN (IF ev.n = 0 THEN Y(ev.rc = 0 /\ ev.o = 1, st, 1) ELSE fresh(ev))
     ELSE IF ev.rc = 0 /\ (IF ev.rc = 0 THEN ev.o[1] = "old" ELSE FALSE) THEN
       Y(x.amb \/ ev.o[2] \in opts, IF ev.o[2] \in DOMAIN h THEN Ref(st, ev.o[2], 1) ELSE st, <<"one of", opts>>)
     ELSE IF opts # {} /\ ~x.amb THEN Y(FALSE, st, <<"one of", opts>>)
     ELSE fresh(one(ev))

(* an object read back *)
AccDeser(st, ev) ==
  LET b == st.bl[ev.b]
      o == b.root
      m == ev.m
      refs == Refers(b.h, o)
      found(r) == IF EntriesAt(st.h[m], <<"oid", r>>) = {} THEN 0
                  ELSE LET v == st.h[m].es[At(st.h[m], <<"oid", r>>)][2] IN IF v[1] \in {"o", "oid"} THEN v[2] ELSE 0
      env == [r \in refs |-> found(r)]
      errs == (IF refs = {} THEN {} ELSE IF m = 0 THEN {INVALID_OBJECT} ELSE RefErrs(b.h, o, env, st.h))
              \cup InnerErrs(b.h, o, Opt(ev, "vec", 0) = 1) \cup ({Opt(ev, "urc", 0)} \ {0})
              \cup (IF m = 0 THEN {} ELSE IF EntriesAt(st.h[m], <<"oid", o>>) = {} THEN {} ELSE {DUPLICATE_HANDLE})
      shape == SameShape(b.h, o, ev.o)
      prs == Pairs(b.h, o, ev.o)
      add(s) == IF s \in DOMAIN b.sc THEN b.sc[s] ELSE b.cb
      uvec == Opt(ev, "uvec", 0)
      new == Loaded(b.h, o, ev.o, Copy(b.h, o, ev.o, env), uvec, Opt(ev, "dat", 0))
      ucb == Opt(ev, "ucb", <<>>)
      ud == [c \in {p[2] : p \in {q \in prs : IF ev.cb = 0 \/ add(q[1]) = 0 \/ q[1] \notin DOMAIN b.ud THEN FALSE ELSE b.ud[q[1]] # 0}} |->
               LET s == (CHOOSE p \in prs : p[2] = c)[1] IN b.ud[s] + add(s)]
      h1 == new @@ st.h
      h2 == IF m = 0 THEN h1 ELSE [h1 EXCEPT ![m].es = Append(@, <<<<"oid", o>>, <<"o", ev.o[1]>>>>)]
  IN IF ev.rc # 0 THEN Y((ev.rc \in errs \/ (ANYRC \in errs /\ ev.rc < 0)) /\ ev.rc > -100 /\ ev.o = 0
                              /\ (IsUser(b.h[o]) => Opt(ev, "udel", 0) = Len(ucb)), st, <<"errors", errs>>)
     ELSE IF errs \ {ANYRC} # {} THEN Y(FALSE, st, <<"errors", errs>>)
     ELSE IF ~shape THEN Y(FALSE, st, <<"a copy of the same shape">>)
     ELSE IF Opt(ev, "udel", 0) # 0 \/ ~Same(ucb, Handed(b.h, o, ev.o, new, uvec, Opt(ev, "dat", 0)))
          THEN Y(FALSE, st, <<"callbacks", Handed(b.h, o, ev.o, new, uvec, Opt(ev, "dat", 0))>>)
     ELSE Y(TRUE, [st EXCEPT !.h = h2, !.u = (ev.o[1] :> 1) @@ @, !.ud = ud @@ @], 0)

(* one call of an operation on a descriptor *)
AccStream(st, ev) ==
  LET q == st.fd[ev.q]
      rd == ev.a = "fdget"
      n == st.bl[ev.b].n
      nb == ev.nb = 1
      w == Outcome(n, q.got, ev.log, nb, rd)
      rc == StreamRC(w[1])
      next == [q EXCEPT !.got = IF w[1] = "again" THEN w[2] ELSE 0,
                        !.b = IF ~rd /\ w[1] = "again" THEN ev.b ELSE 0,
                        !.bs = IF rd /\ w[1] # "again" THEN Tail(@) ELSE @]
      st2 == [st EXCEPT !.fd[ev.q] = next]
      known == IF rd THEN q.bs # <<>> /\ ev.b = q.bs[1] ELSE q.b \in {0, ev.b}
      idle == ev.idle = (IF w[1] = "again" THEN 0 ELSE 1)
  IN IF ~known \/ ~idle \/ w[1] \in {"over", "stopped early"} THEN Y(FALSE, st, <<w, "of", n, "from", q.got, idle>>)
     ELSE IF ~rd THEN Y(ev.rc = rc /\ ev.o[1] = w[2] /\ ev.o[2] = 1, st2, <<rc, w>>)
     ELSE IF w[1] = "done" THEN AccDeser(st2, ev)
     ELSE Y(ev.rc = rc /\ ev.o = 0, st2, <<rc, w>>)

(* an operation on a user-defined tuner: one callback, its answer *)
AccUser(st, ev) ==
  LET u == UserCall(st.h, ev @@ [w |-> "", n |-> 0, ret |-> 1, give |-> <<0>>])
      x == st.h[ev.s]
      RECURSIVE More(_, _)
      More(s, i) == IF i > Len(ev.give) THEN s ELSE More(Ref(s, ev.give[i], 1), i + 1)
  IN IF u[1] # {} THEN Y(ev.rc \in u[1] /\ ev.ucb = <<>>, st, <<u[1], "no callback">>)
     ELSE IF ~Same(ev.ucb, <<u[2]>>) THEN Y(FALSE, st, <<"callback", u[2]>>)
     ELSE IF u[3] # {} THEN Y(ev.rc \in u[3], st, u[3])
     ELSE Y(ev.rc = 0 /\ Same(ev.o, u[4]),
            CASE ev.a = "utell" -> Upd(st, ev.s, [x EXCEPT !.hist = @ \o ev.es, !.opt = LastOf(x.hist \o ev.es)])
              [] ev.a = "ulist" -> st
              [] ev.a = "uask" /\ ev.n = 0 -> st
              [] OTHER -> More(st, 1), u[4])

(* a call some of whose arguments are not what they should be (see CCSArgs) *)
Args == INSTANCE CCSArgs
AccCall(st, ev) ==
  LET c == Args!CallCodes(ev.f, Range(ev.w)) IN
  Y(ev.rc \in c /\ (ev.o = <<0, 0, 0>> \/ (Args!Partly(ev.f) /\ Args!Elements(Range(ev.w)))), st, <<"codes", c>>)

Core(st, ev) ==
  CASE ev.a = "deser" -> AccDeser(st, ev)
    [] ev.a \in UserOps -> AccUser(st, ev)
    [] ev.a = "call" -> AccCall(st, ev)
    [] ev.a = "err" -> Y(ErrOk(st.er, ev), [st EXCEPT !.er = ExErr(@, ev).e], <<ExErr(st.er, ev).rc, ExErr(st.er, ev).o>>)
    [] ev.a \in {"fdput", "fdget"} -> AccStream(st, ev)
    [] ev.a = "cssample" -> AccSamples(st, ev, ev.s)
    [] ev.a \in TreeAcc -> AccTree(st, ev)
    [] ev.a \in {"ask", "suggest"} -> AccTuner(st, ev)
    [] ev.a = "cscover" -> AccCover(st, ev)
    [] ev.a \in DistAcc -> AccDist(st, ev)
    [] ev.a \in MiscAcc -> AccMisc(st, ev)
    [] ev.a \in IvOps -> LET r == ExIv(ev) IN Y(r[1], st, r[2])
    [] OTHER -> LET r == Exec(st, ev) IN
         Y((r.rc = ANYRC /\ ev.rc > -100) \/ (ev.rc = r.rc /\ (r.rc # 0 \/ Same(r.o, Unk) \/ Same(ev.o, r.o))), r.st, <<r.rc, r.o>>)

(* destroyed objects and callbacks agree with reachability *)
NOMEM == -17
Step(st, ev) ==
  LET y == Core(st, ev)
      dead == Opt(ev, "dead", <<>>)
      gone == (DOMAIN st.h) \ (DOMAIN y.st.h)
      cbs == Opt(ev, "cbs", <<>>)
  IN \* a call that an allocation failure cut short has done nothing
     IF "oom" \in DOMAIN ev /\ ev.rc = NOMEM THEN
       Y(dead = <<>> /\ cbs = <<>> /\ Opt(ev, "dels", <<>>) = <<>>
           /\ ("te" \in DOMAIN ev => ev.te[1] = NOMEM /\ ev.te[2] = 1 /\ ev.te[3] >= 1), st, <<"out of memory: nothing happens">>)
     ELSE IF ~y.ok THEN y
     ELSE IF Range(dead) # gone \/ Len(dead) # Cardinality(gone) THEN Y(FALSE, y.st, <<"dead", gone>>)
     ELSE IF ~CbsOk(st, gone, cbs) THEN Y(FALSE, y.st, <<"callbacks", [d \in gone |-> Rev(Callbacks(st, d))]>>)
     ELSE IF LET u == {d \in gone : IF st.h[d].k = "tspace" THEN st.h[d].dyn # 0 ELSE IsUser(st.h[d])} IN
             Opt(ev, "dels", <<>>) # Sorted(u) THEN Y(FALSE, y.st, <<"user deletions", gone>>)
     \* under memory pressure the error itself may have had no room
     ELSE IF "te" \in DOMAIN ev /\ "oom" \notin DOMAIN ev THEN
       (IF ev.rc < 0 /\ ev.rc > -100 /\ ev.rc # EXTERNAL THEN Y(ev.te[1] = ev.rc /\ ev.te[2] = 1 /\ ev.te[3] >= 1, y.st, <<"thread error", ev.rc>>)
        ELSE y)
     ELSE y
=============================================================================
