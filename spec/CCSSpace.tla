------------------------------- MODULE CCSSpace -------------------------------
(* Contexts: configuration, features and objective spaces.                    *)
(*  cs [k, name, ps, ds, cond, forb, rng]                                     *)
(*     ps: parameter slots in order; ds[i] = <<distribution, component, n>>  *)
(*     (0: the parameter's own default distribution; n identifies the         *)
(*     assignment the parameter was attached by, g the last one used);        *)
(*     cond[i]: expression slot or 0; forb: expression slots; rng: slot or 0  *)
(*  fs [k, name, ps]        os [k, name, ps, objs]  objs: <<expr, type>>      *)
EXTENDS CCSDist

Names(h, ps) == {h[ps[i]].name : i \in 1..Len(ps)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x

MkCtx(o) ==
  CASE o.k = "cs" -> [k |-> "cs", name |-> o.name, ps |-> <<>>, ds |-> <<>>, cond |-> <<>>, forb |-> <<>>, rng |-> 0]
    [] o.k = "fs" -> [k |-> "fs", name |-> o.name, ps |-> <<>>]
    [] o.k = "os" -> [k |-> "os", name |-> o.name, ps |-> <<>>, objs |-> <<>>]

(* one addition: <<rc, context>> *)
AddOne(h, c, p, d) ==
  IF p = 0 THEN <<INVALID_OBJECT, c>>
  ELSE IF h[p].k # "param" THEN <<INVALID_OBJECT, c>>
  ELSE IF c.k = "cs" /\ h[p].pk = "str" THEN <<INVALID_PARAMETER, c>>
  ELSE IF h[p].name \in Names(h, c.ps) THEN <<INVALID_PARAMETER, c>>
  ELSE IF c.k # "cs" THEN <<0, [c EXCEPT !.ps = Append(@, p)]>>
  ELSE IF (IF d = 0 THEN FALSE ELSE Dim(h, d) # 1) THEN <<INVALID_DISTRIBUTION, c>>
  ELSE <<0, [c EXCEPT !.ps = Append(@, p), !.ds = Append(@, <<d, 0, Len(c.ps) + 1>>), !.cond = Append(@, 0)]>>
RECURSIVE AddAll(_, _, _, _, _)
AddAll(h, c, ps, ds, i) ==
  IF i > Len(ps) THEN <<0, c>>
  ELSE LET r == AddOne(h, c, ps[i], IF i <= Len(ds) THEN ds[i] ELSE 0) IN
       IF r[1] # 0 THEN r ELSE AddAll(h, r[2], ps, ds, i + 1)

(* ---- conditions ---------------------------------------------------------- *)
EParams(h, e) == Params(h, <<"o", e>>)
Parents(h, c, i) == IF c.cond[i] = 0 THEN {}
                    ELSE {IndexOf(c.ps, p) : p \in {q \in EParams(h, c.cond[i]) : In(c.ps, q)}}
RECURSIVE Anc(_, _, _, _)
Anc(h, c, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET new == (UNION {Parents(h, c, i) : i \in todo}) \ seen IN Anc(h, c, new, seen \cup new)
Ancestors(h, c, i) == Anc(h, c, {i}, {})
Acyclic(h, c) == \A i \in 1..Len(c.ps) : i \notin Ancestors(h, c, i)
AllIn(h, c, e) == \A p \in EParams(h, e) : In(c.ps, p)

SetCondRC(h, c, i, e) ==
  IF e = 0 THEN INVALID_OBJECT
  ELSE IF i >= Len(c.ps) THEN OUT_OF_BOUNDS
  ELSE IF c.cond[i + 1] # 0 THEN INVALID_PARAMETER
  ELSE IF ~AllIn(h, c, e) THEN INVALID_PARAMETER
  ELSE IF ~Acyclic(h, [c EXCEPT !.cond[i + 1] = e]) THEN INVALID_GRAPH
  ELSE 0

Env(c, vals) == [ps |-> c.ps, vals |-> vals, ctx |-> TRUE, hv |-> TRUE]
EvalIn(h, c, e, vals) == EvalNode(h, <<"o", e>>, Env(c, vals))

(* Values with the parameters whose condition does not hold made inactive,    *)
(* the conditions being evaluated parents first.  <<"ok", values>> or         *)
(* <<"err", codes>> or <<"unk">>                                              *)
RECURSIVE Act(_, _, _, _)
Act(h, c, vals, done) ==
  LET n == Len(c.ps)
      ready == {i \in (1..n) \ done : Parents(h, c, i) \subseteq done}
  IN
  IF done = 1..n THEN <<"ok", vals>>
  ELSE LET res == [i \in ready |-> IF c.cond[i] = 0 THEN Ok(True) ELSE EvalIn(h, c, c.cond[i], vals)]
           errs == {i \in ready : IsErr(res[i])}
       IN
       IF \E i \in ready : IsUnk(res[i]) THEN UnkR
       ELSE IF errs # {} THEN <<"err", {res[i][2] : i \in errs}>>
       ELSE Act(h, c, [i \in 1..n |-> IF i \in ready THEN (IF res[i][2] = True THEN vals[i] ELSE Inactive)
                                      ELSE vals[i]], done \cup ready)
SetActives(h, c, vals) == Act(h, c, vals, {})

DefaultValues(h, c) == SetActives(h, c, [i \in 1..Len(c.ps) |-> h[c.ps[i]].df])

(* ---- validity: <<set of acceptable error codes, TRUE / FALSE / none>>      *)
(* "unk" when some expression is outside the modelled arithmetic             *)
CheckCS(h, c, vals) ==
  IF Len(vals) # Len(c.ps) THEN [unk |-> FALSE, errs |-> {INVALID_CONFIGURATION}, can |-> {}]
  ELSE
  LET n == Len(c.ps)
      cr == [i \in 1..n |-> IF c.cond[i] = 0 THEN Ok(True) ELSE EvalIn(h, c, c.cond[i], vals)]
      bad(i) == IF IsErr(cr[i]) \/ IsUnk(cr[i]) THEN FALSE
                ELSE IF cr[i][2] = True THEN ~(vals[i] # Inactive /\ InDomain(h[c.ps[i]], vals[i]))
                ELSE vals[i] # Inactive
      cerr == {cr[i][2] : i \in {j \in 1..n : IsErr(cr[j])}}
      anybad == \E i \in 1..n : bad(i)
      fr == [i \in 1..Len(c.forb) |-> EvalIn(h, c, c.forb[i], vals)]
      ferr == {fr[i][2] : i \in {j \in 1..Len(c.forb) : IsErr(fr[j])}}
      forbid == \E i \in 1..Len(c.forb) : IF IsErr(fr[i]) \/ IsUnk(fr[i]) THEN FALSE ELSE fr[i][2] = True
  IN
  IF (\E i \in 1..n : IsUnk(cr[i])) \/ (\E i \in 1..Len(c.forb) : IsUnk(fr[i]))
  THEN [unk |-> TRUE, errs |-> {}, can |-> {}]
  (* forbidden clauses only matter once the values fit *)
  ELSE [unk |-> FALSE, errs |-> cerr \cup (IF cerr = {} /\ ~anybad THEN ferr ELSE {}),
        can |-> IF anybad \/ (cerr = {} /\ forbid) THEN {0}
                ELSE IF cerr = {} /\ ferr = {} /\ ~forbid THEN {1} ELSE {}]
CheckPlain(h, c, vals) ==
  IF Len(vals) # Len(c.ps)
  THEN [unk |-> FALSE, errs |-> {IF c.k = "fs" THEN INVALID_FEATURES ELSE INVALID_EVALUATION}, can |-> {}]
  ELSE [unk |-> FALSE, errs |-> {},
        can |-> {IF \A i \in 1..Len(c.ps) : InDomain(h[c.ps[i]], vals[i]) THEN 1 ELSE 0}]
CheckVals(h, c, vals) == IF c.k = "cs" THEN CheckCS(h, c, vals) ELSE CheckPlain(h, c, vals)
Valid(h, c, vals) == LET r == CheckVals(h, c, vals) IN r.errs = {} /\ r.can = {1}

(* ---- forbidden clauses --------------------------------------------------- *)
(* set of acceptable results of adding clause e *)
ForbRCs(h, c, e) ==
  IF e = 0 THEN {INVALID_OBJECT}
  ELSE IF ~AllIn(h, c, e) THEN {INVALID_PARAMETER}
  ELSE LET dv == DefaultValues(h, c) IN
  IF dv[1] = "err" THEN dv[2]
  ELSE IF dv[1] = "unk" THEN {}
  ELSE LET r == EvalIn(h, c, e, dv[2]) IN
  IF IsErr(r) THEN {r[2]}
  ELSE IF IsUnk(r) THEN {}
  ELSE IF r[2] = True THEN {INVALID_CONFIGURATION} ELSE {0}

(* ---- distributions ------------------------------------------------------- *)
(* the parameters sharing a distribution assignment with parameter i are      *)
(* recorded by naming each assignment after its first parameter               *)
SetDistRC(h, c, d, ix) ==
  IF d = 0 THEN INVALID_OBJECT
  ELSE IF \/ \E i \in 1..Dim(h, d) : ix[i] >= Len(c.ps)
          \/ \E i, j \in 1..Dim(h, d) : i < j /\ ix[i] = ix[j]
  THEN INVALID_VALUE ELSE 0

SetDist(h, c, d, ix) ==
  LET new == {ix[i] + 1 : i \in 1..Dim(h, d)}
      old == {c.ds[i][3] : i \in new}
      g == CHOOSE i \in new : \A j \in new : i <= j
  IN [c EXCEPT
        !.ds = [i \in 1..Len(c.ps) |->
                 IF i \in new THEN <<d, (CHOOSE j \in 1..Dim(h, d) : ix[j] + 1 = i) - 1, g>>
                 ELSE IF c.ds[i][3] \in old THEN <<0, 0, i>>
                 ELSE c.ds[i]]]

(* ---- samples ------------------------------------------------------------- *)
DefSupport(p, v) == InDomain(p, v) /\ (IF p.pk = "num" THEN Multiple(v, p.lo, p.q) ELSE TRUE)
(* parameters attached by assignment g, in component order *)
Members(c, g) == LET m == {i \in 1..Len(c.ps) : c.ds[i][3] = g} IN
                 [j \in 1..Cardinality(m) |-> CHOOSE i \in m : c.ds[i][2] = j - 1]
FromDists(h, c, vals) ==
  /\ \A i \in 1..Len(c.ps) : c.ds[i][1] = 0 /\ vals[i] # Inactive => DefSupport(h[c.ps[i]], vals[i])
  /\ \A g \in {c.ds[i][3] : i \in {j \in 1..Len(c.ps) : c.ds[j][1] # 0}} :
       LET m == Members(c, g)  d == c.ds[m[1]][1] IN
       /\ \A j \in 1..Len(m) : vals[m[j]] # Inactive => InDomain(h[c.ps[m[j]]], vals[m[j]])
       /\ InDist(h, d, [j \in 1..Len(m) |-> IF vals[m[j]] = Inactive THEN Unk
                                           ELSE CHOOSE x \in Pre(h, c.ps[m[j]], vals[m[j]]) : TRUE])
(* one sampled configuration *)
GoodSample(h, c, vals) ==
  /\ Len(vals) = Len(c.ps)
  /\ LET r == CheckCS(h, c, vals) IN r.unk \/ (r.errs = {} /\ r.can = {1})
  /\ FromDists(h, c, vals)
(* results sampling may have: 0, an error of an expression, or running out of tries *)
AnyExprErr(h, c, raw) == {}
Groups(c) == {c.ds[i][3] : i \in 1..Len(c.ps)}
GroupRCs(h, c, g) ==
  LET m == Members(c, g)  d == c.ds[m[1]][1] IN
  IF d = 0 THEN {0} ELSE PSampleRCs(h, d, [j \in 1..Len(m) |-> c.ps[m[j]]])
(* number of values of a parameter drawn uniformly from few values, 0 if not so *)
Finite(h, c, i) ==
  LET p == h[c.ps[i]] IN
  IF c.ds[i][1] # 0 THEN 0
  ELSE IF p.pk = "num" THEN (IF p.dt = "i" /\ IsZ(p.q) /\ ~Extreme(p.lo) /\ ~Extreme(p.hi) THEN p.hi[2] - p.lo[2] ELSE 0)
  ELSE Len(p.vals)
NthValue(h, c, i, n) == LET p == h[c.ps[i]] IN
  IF p.pk = "num" THEN <<"i", p.lo[2] + n - 1>> ELSE p.vals[n]
RECURSIVE Prod(_, _, _)
Prod(h, c, i) == IF i > Len(c.ps) THEN 1
                 ELSE LET f == Finite(h, c, i)  r == Prod(h, c, i + 1) IN
                      IF f = 0 \/ r = 0 \/ f > 100 THEN 0 ELSE IF f * r > 100 THEN 0 ELSE f * r
RECURSIVE Raws(_, _, _)
Raws(h, c, i) == IF i > Len(c.ps) THEN {<<>>}
                 ELSE {<<NthValue(h, c, i, n)>> \o v : n \in 1..Finite(h, c, i), v \in Raws(h, c, i + 1)}
(* outcome of one try from a raw vector *)
TryOf(h, c, raw) ==
  LET a == SetActives(h, c, raw) IN
  IF a[1] = "err" THEN <<"err", a[2]>>
  ELSE IF a[1] = "unk" THEN <<"unk">>
  ELSE LET fr == {EvalIn(h, c, c.forb[j], a[2]) : j \in 1..Len(c.forb)} IN
       IF \E r \in fr : IsUnk(r) THEN <<"unk">>
       ELSE IF \E r \in fr : IsErr(r) THEN <<"err", {r[2] : r \in {q \in fr : IsErr(q)}}>>
       ELSE IF \E r \in fr : r[2] = True THEN <<"no">>
       ELSE <<"ok", a[2]>>
SampleRCs(h, c) ==
  IF \E g \in Groups(c) : INVALID_TYPE \in GroupRCs(h, c, g) THEN
    UNION {GroupRCs(h, c, g) \ {0} : g \in Groups(c)}
  ELSE IF \E g \in Groups(c) : 0 \notin GroupRCs(h, c, g) THEN {SAMPLING_UNSUCCESSFUL}
  ELSE IF Prod(h, c, 1) > 0 THEN
    LET raws == Raws(h, c, 1)
        ts == [r \in raws |-> TryOf(h, c, r)]
        oks == {r \in raws : ts[r][1] = "ok"}
        errs == UNION {ts[r][2] : r \in {q \in raws : ts[q][1] = "err"}}
        noerr == \A r \in raws : ts[r][1] # "err"
        unk == \E r \in raws : ts[r][1] = "unk"
    IN IF unk THEN {0, SAMPLING_UNSUCCESSFUL, INVALID_VALUE}
       ELSE IF oks = {} /\ noerr THEN {SAMPLING_UNSUCCESSFUL}
       ELSE errs \cup (IF oks # {} THEN {0} ELSE {})
                 \cup (IF 4 * Cardinality(oks) < Cardinality(raws) THEN {SAMPLING_UNSUCCESSFUL} ELSE {})
  ELSE {0} \cup UNION {GroupRCs(h, c, g) : g \in Groups(c)}
       \cup (IF Len(c.forb) > 0 THEN {SAMPLING_UNSUCCESSFUL} ELSE {})
       \cup (IF Len(c.forb) > 0 \/ (\E i \in 1..Len(c.ps) : c.cond[i] # 0) THEN {INVALID_VALUE, UNSUPPORTED_OPERATION} ELSE {})
(* the configurations of a small finite space *)
AllValid(h, c) == {TryOf(h, c, r)[2] : r \in {q \in Raws(h, c, 1) : TryOf(h, c, q)[1] = "ok"}}
=============================================================================
