------------------------------- MODULE CCSSerial -------------------------------
(* Copies made by serialising an object and deserialising the result.          *)
(* An object is written with what it owns (Owned); what it merely refers to     *)
(* (the parameters of an expression, the space of a binding) is written as a    *)
(* handle, and found again when reading: inside the copy of the enclosing       *)
(* space or tuner, or in the handle map the user gives.                         *)
(* A copy is described by a node <<slot, <<nodes of the owned objects>>>>.      *)
EXTENDS CCSTuner

Slots(h, n) == LET q == SelectSeq(n, LAMBDA v : IF v[1] = "o" THEN h[v[2]].k = "expr" ELSE FALSE) IN [i \in 1..Len(q) |-> q[i][2]]
NotZero(s) == SelectSeq(s, LAMBDA v : v # 0)
(* the distributions of a space, in the order of the first parameter of each    *)
DistSeq(c) == LET q == SelectSeq(c.ds, LAMBDA e : e[1] # 0 /\ e[2] = 0) IN [i \in 1..Len(q) |-> q[i][1]]
Owned(h, x) ==
  CASE x.k = "dist" -> IF x.dk \in {"mix", "mul"} THEN x.ds ELSE <<>>
    [] x.k = "expr" -> Slots(h, x.n)
    [] x.k = "cs" -> NotZero(<<x.rng>>) \o x.ps \o NotZero(x.cond) \o DistSeq(x) \o x.forb
    [] x.k = "fs" -> x.ps
    [] x.k = "os" -> x.ps \o [i \in 1..Len(x.objs) |-> x.objs[i][1]]
    [] x.k \in {"eval", "teval"} -> <<x.c>>
    [] x.k = "feval" -> <<x.c, x.f>>
    [] x.k = "tree" -> NotZero(x.ch)
    [] x.k = "tspace" -> NotZero(<<x.rng>>) \o <<x.tree>>
    [] x.k \in {"tuner", "ttuner"} -> <<x.cs, x.os>> \o x.hist
    [] x.k = "ftuner" -> <<x.cs, x.fs, x.os>> \o x.hist
    [] OTHER -> <<>>
IsTuner(k) == k \in {"tuner", "ftuner", "ttuner"}

(* objects designated by handle when x is written *)
RECURSIVE Refers(_, _)
Refers(h, s) ==
  LET x == h[s] IN
  CASE x.k = "expr" -> Params(h, <<"o", s>>)
    [] x.k \in {"conf", "feat"} -> {x.ctx}
    [] x.k = "tconf" -> {x.sp}
    [] x.k \in {"eval", "teval"} -> {x.ctx} \cup Refers(h, x.c)
    [] x.k = "feval" -> {x.ctx} \cup Refers(h, x.c) \cup Refers(h, x.f)
    [] OTHER -> {}

(* ---- can it be read back ? the set of errors that may be reported ----------- *)
(* values of a binding read into a space c *)
BindErrs(h, x, c, h2) ==
  IF Len(x.vals) = 0 THEN {}
  ELSE IF Len(x.vals) # Len(c.ps) THEN {INVALID_VALUE}
  ELSE IF \E i \in 1..Len(c.ps) : x.vals[i][1] = "s" /\ ~InDomain(h2[c.ps[i]], x.vals[i]) THEN {INVALID_VALUE}
  ELSE {}
(* e: the object found for each reference (0: none), living in heap h2 *)
RECURSIVE RefErrs(_, _, _, _)
RefErrs(h, s, e, h2) ==
  LET x == h[s]
      at(r, k) == IF e[r] = 0 THEN {INVALID_HANDLE} ELSE IF h2[e[r]].k # k THEN {INVALID_OBJECT} ELSE {}
      bind == LET a == at(x.ctx, CtxKind(x.k)) IN IF a # {} THEN a ELSE BindErrs(h, x, h2[e[x.ctx]], h2)
  IN
  CASE x.k = "expr" -> UNION {at(p, "param") : p \in Refers(h, s)}
    [] x.k \in {"conf", "feat"} -> bind
    [] x.k = "tconf" -> at(x.sp, "tspace")
    [] x.k \in {"eval", "teval"} -> bind \cup RefErrs(h, x.c, e, h2)
    [] x.k = "feval" -> bind \cup RefErrs(h, x.c, e, h2) \cup RefErrs(h, x.f, e, h2)
    [] OTHER -> {}
(* clauses are added again: the default configuration must not be forbidden    *)
RECURSIVE ForbErrs(_, _, _)
ForbErrs(h, c, i) ==
  IF i > Len(c.forb) THEN {}
  ELSE LET r == ForbRCs(h, c, c.forb[i]) IN
       IF r = {} THEN {ANYRC} ELSE IF 0 \in r THEN ForbErrs(h, c, i + 1) ELSE r
RECURSIVE InnerErrs(_, _, _)
InnerErrs(h, s, vec) ==
  LET x == h[s] IN
  CASE x.k = "cs" -> ForbErrs(h, x, 1)
    [] x.k = "tspace" -> IF x.dyn # 0 /\ ~vec THEN {INVALID_VALUE} ELSE {}
    [] IsTuner(x.k) ->
         LET refs == UNION {Refers(h, x.hist[i]) : i \in 1..Len(x.hist)}
             self == [r \in refs |-> IF r \in {x.cs, x.os, x.fs} THEN r ELSE 0] IN
         InnerErrs(h, x.cs, vec) \cup (IF x.usr # -1 /\ ~vec THEN {INVALID_VALUE} ELSE {}) \cup UNION {RefErrs(h, x.hist[i], self, h) : i \in 1..Len(x.hist)}
    [] OTHER -> {}

(* ---- the copy ---------------------------------------------------------------- *)
(* objects made for original o read at node nd; env: copies of what it refers to *)
RECURSIVE Copy(_, _, _, _)
Copy(h, o, nd, env) ==
  LET x == h[o]
      ow == Owned(h, x)
      ks == nd[2]
      new(i) == ks[i][1]
      self(a, n) == [i \in 1..n |-> new(a + i)]
      env2 == CASE x.k = "cs" -> LET a == IF x.rng = 0 THEN 0 ELSE 1 IN
                                 [p \in Range(x.ps) |-> new(a + IndexOf(x.ps, p))]
                [] x.k \in {"os", "fs"} -> [p \in Range(x.ps) |-> new(IndexOf(x.ps, p))]
                [] x.k = "ftuner" -> (x.cs :> new(1)) @@ (x.fs :> new(2)) @@ (x.os :> new(3))
                [] x.k \in {"tuner", "ttuner"} -> (x.cs :> new(1)) @@ (x.os :> new(2))
                [] OTHER -> env
      RECURSIVE Sub(_)
      Sub(i) == IF i > Len(ow) THEN <<>> ELSE Copy(h, ow[i], ks[i], env2) @@ Sub(i + 1)
      sub0 == Sub(1)
      sub == IF x.k # "tree" THEN sub0
             ELSE LET kid == {new(i) : i \in 1..Len(ow)} IN
                  [s \in DOMAIN sub0 |-> IF s \in kid
                     THEN [sub0[s] EXCEPT !.par = nd[1], !.ix = h[ow[CHOOSE i \in 1..Len(ow) : new(i) = s]].ix] ELSE sub0[s]]
      (* positions of those of a sequence that are kept, in the owned objects *)
      pick(seq, a) == [i \in 1..Len(seq) |-> IF seq[i] = 0 THEN 0
                        ELSE new(a + Cardinality({j \in 1..i : seq[j] # 0}))]
      nh == IF IsTuner(x.k) THEN (IF x.k = "ftuner" THEN 3 ELSE 2) ELSE 0
      evOf(e) == new(nh + (CHOOSE i \in 1..Len(x.hist) : x.hist[i] = e /\ \A j \in 1..(i - 1) : x.hist[j] # e))
      rec ==
        CASE x.k = "dist" -> IF x.dk \in {"mix", "mul"} THEN [x EXCEPT !.ds = self(0, Len(x.ds))] ELSE x
          [] x.k = "expr" ->
             LET isx(i) == IF x.n[i][1] = "o" THEN h[x.n[i][2]].k = "expr" ELSE FALSE
                 ref(i) == IF x.n[i][1] = "o" THEN h[x.n[i][2]].k = "param" ELSE FALSE IN
             [x EXCEPT !.n = [i \in 1..Len(x.n) |->
                 IF isx(i) THEN <<"o", new(Cardinality({j \in 1..i : isx(j)}))>>
                 ELSE IF ref(i) THEN <<"o", env[x.n[i][2]]>> ELSE x.n[i]]]
          [] x.k = "cs" ->
             LET a == IF x.rng = 0 THEN 0 ELSE 1
                 b == a + Len(x.ps)
                 c == b + Len(NotZero(x.cond))
                 d == c + Len(DistSeq(x))
                 grp(i) == CHOOSE j \in 1..Len(x.ps) : x.ds[j][3] = x.ds[i][3] /\ x.ds[j][2] = 0
                 pos(j) == Cardinality({q \in 1..j : x.ds[q][1] # 0 /\ x.ds[q][2] = 0}) IN
             [x EXCEPT !.rng = IF x.rng = 0 THEN 0 ELSE new(1),
                       !.ps = self(a, Len(x.ps)), !.cond = pick(x.cond, b),
                       !.ds = [i \in 1..Len(x.ps) |-> IF x.ds[i][1] = 0 THEN x.ds[i]
                                  ELSE <<new(c + pos(grp(i))), x.ds[i][2], x.ds[i][3]>>],
                       !.forb = self(d, Len(x.forb))]
          [] x.k = "fs" -> [x EXCEPT !.ps = self(0, Len(x.ps))]
          [] x.k = "os" -> [x EXCEPT !.ps = self(0, Len(x.ps)),
                                     !.objs = [i \in 1..Len(x.objs) |-> <<new(Len(x.ps) + i), x.objs[i][2]>>]]
          [] x.k \in {"conf", "feat"} -> [x EXCEPT !.ctx = env[x.ctx]]
          [] x.k = "tconf" -> [x EXCEPT !.sp = env[x.sp]]
          [] x.k \in {"eval", "teval"} -> [x EXCEPT !.ctx = env[x.ctx], !.c = new(1)]
          [] x.k = "feval" -> [x EXCEPT !.ctx = env[x.ctx], !.c = new(1), !.f = new(2)]
          [] x.k = "map" -> [x EXCEPT !.es = [i \in 1..Len(x.es) |->
                               [j \in 1..2 |-> IF x.es[i][j][1] = "o" THEN <<"oid", x.es[i][j][2]>> ELSE x.es[i][j]]]]
          [] x.k = "tree" -> [x EXCEPT !.ch = pick(x.ch, 0), !.par = 0, !.ix = 0]
          [] x.k = "tspace" -> [x EXCEPT !.rng = IF x.rng = 0 THEN 0 ELSE new(1), !.tree = new(Len(ow))]
          [] IsTuner(x.k) -> [x EXCEPT !.cs = new(1), !.fs = IF x.k = "ftuner" THEN new(2) ELSE 0, !.os = new(nh),
                                       !.hist = self(nh, Len(x.hist)), !.opt = [i \in 1..Len(x.opt) |-> evOf(x.opt[i])]]
          [] OTHER -> x
  IN (nd[1] :> rec) @@ sub

(* a copy has the shape of its original *)
RECURSIVE SameShape(_, _, _)
SameShape(h, o, nd) ==
  LET ow == Owned(h, h[o]) IN
  /\ Len(nd) = 2 /\ Len(nd[2]) = Len(ow)
  /\ \A i \in 1..Len(ow) : SameShape(h, ow[i], nd[2][i])

(* <<original, copy>> of every object of a copy *)
RECURSIVE Pairs(_, _, _)
Pairs(h, o, nd) ==
  LET ow == Owned(h, h[o]) IN {<<o, nd[1]>>} \cup UNION {Pairs(h, ow[i], nd[2][i]) : i \in 1..Len(ow)}
=============================================================================
