------------------------------- MODULE CCSBind -------------------------------
(* Bindings of values to a context, and evaluations.                          *)
(*  conf, feat [k, ctx, vals]    eval [k, ctx, vals, r, c]                     *)
(*  feval [k, ctx, vals, r, c, f]     teval [k, ctx, vals, r, c]               *)
EXTENDS CCSSpace

CtxKind(bk) == CASE bk = "conf" -> "cs" [] bk = "feat" -> "fs" [] OTHER -> "os"
IsEval(k) == k \in {"eval", "feval", "teval"}
SubKind(bk) == IF bk = "teval" THEN "tconf" ELSE "conf"

BadRef(h, s, k) == IF s = 0 THEN TRUE ELSE h[s].k # k

MkBindRC(h, o) ==
  IF BadRef(h, o.s, CtxKind(o.k)) THEN INVALID_OBJECT
  ELSE IF (IF IsEval(o.k) THEN BadRef(h, o.c, SubKind(o.k)) ELSE FALSE) THEN INVALID_OBJECT
  ELSE IF (IF o.k = "feval" THEN BadRef(h, o.f, "feat") ELSE FALSE) THEN INVALID_OBJECT
  ELSE IF o.nov = 1 THEN 0
  ELSE IF Len(o.vals) # Len(h[o.s].ps) THEN INVALID_VALUE
  ELSE IF o.tr = 1 /\ \E i \in 1..Len(o.vals) : ~InDomain(h[h[o.s].ps[i]], V(o.vals[i])) THEN INVALID_VALUE
  ELSE 0
MkBind(h, o) ==
  LET vs == IF o.nov = 1 THEN [i \in 1..Len(h[o.s].ps) |-> None] ELSE [i \in 1..Len(o.vals) |-> V(o.vals[i])]
  IN CASE o.k \in {"conf", "feat"} -> [k |-> o.k, ctx |-> o.s, vals |-> vs]
       [] o.k \in {"eval", "teval"} -> [k |-> o.k, ctx |-> o.s, vals |-> vs, r |-> o.r, c |-> o.c]
       [] o.k = "feval" -> [k |-> "feval", ctx |-> o.s, vals |-> vs, r |-> o.r, c |-> o.c, f |-> o.f]

BindInfo(b) ==
  CASE b.k \in {"conf", "feat"} -> <<b.ctx, b.ctx>>
    [] b.k \in {"eval", "teval"} -> <<b.ctx, b.r, b.ctx, b.c>>
    [] b.k = "feval" -> <<b.ctx, b.r, b.ctx, b.c, b.f>>

(* index designated by position, name or handle: <<rc, index from 1>> *)
Locate(h, c, by, x) ==
  CASE by = "i" -> IF x < Len(c.ps) THEN <<0, x + 1>> ELSE <<OUT_OF_BOUNDS, 0>>
    [] by = "n" -> LET m == {i \in 1..Len(c.ps) : h[c.ps[i]].name = x} IN
                   IF m = {} THEN <<INVALID_NAME, 0>> ELSE <<0, CHOOSE i \in m : TRUE>>
    [] by = "p" -> IF In(c.ps, x) THEN <<0, IndexOf(c.ps, x)>> ELSE <<INVALID_PARAMETER, 0>>
BLocate(h, b, by, x) ==
  IF by = "i" THEN (IF x < Len(b.vals) THEN <<0, x + 1>> ELSE <<OUT_OF_BOUNDS, 0>>)
  ELSE LET l == Locate(h, h[b.ctx], by, x) IN
       IF l[1] # 0 THEN l ELSE IF l[2] > Len(b.vals) THEN <<OUT_OF_BOUNDS, 0>> ELSE l

(* structural equality of bindings (including what evaluations refer to) *)
RECURSIVE SameB(_, _, _)
SameB(h, x, y) ==
  \/ x = y
  \/ LET a == h[x]  b == h[y] IN
     /\ a.k = b.k
     /\ IF a.k = "tconf" THEN a.sp = b.sp /\ a.pos = b.pos
        ELSE /\ a.ctx = b.ctx /\ a.vals = b.vals
             /\ IsEval(a.k) => a.r = b.r /\ SameB(h, a.c, b.c)
             /\ a.k = "feval" => SameB(h, a.f, b.f)

(* a comparison matrix m of bs is a total preorder with 0 exactly on equals *)
GoodOrder(n, m, eq(_, _)) ==
  /\ Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
  /\ \A i, j \in 1..n : (m[i][j] = 0) <=> eq(i, j)
  /\ \A i, j \in 1..n : m[i][j] = -m[j][i]
  /\ \A i, j, k \in 1..n : m[i][j] <= 0 /\ m[j][k] <= 0 => m[i][k] <= 0

(* ---- objectives ---------------------------------------------------------- *)
(* an evaluation made before its space grew has no value for the new ones    *)
ObjValue(h, b, i) ==
  LET c == h[b.ctx] IN
  IF Len(b.vals) < Len(c.ps) /\ ~(EParams(h, c.objs[i][1]) \subseteq {c.ps[j] : j \in 1..Len(b.vals)})
  THEN Err(INVALID_VALUE)
  ELSE EvalIn(h, c, c.objs[i][1], b.vals)

(* acceptable results of a comparison: set of <<rc, answer>>; {} = not known  *)
Better == -1
Worse == 1
Equivalent == 0
NotComparable == 2
PairCmp(h, a, b) ==
  LET c == h[a.ctx]
      n == Len(c.objs)
      va == [i \in 1..n |-> ObjValue(h, a, i)]
      vb == [i \in 1..n |-> ObjValue(h, b, i)]
      errs == {va[i][2] : i \in {j \in 1..n : IsErr(va[j])}} \cup {vb[i][2] : i \in {j \in 1..n : IsErr(vb[j])}}
      known == {i \in 1..n : ~IsErr(va[i]) /\ ~IsErr(vb[i])}
      odd == {i \in known : ~IsNum(va[i][2]) \/ va[i][2][1] # vb[i][2][1]}
      sg == [i \in known \ odd |-> IF c.objs[i][2] = 1 THEN NumCmp(vb[i][2], va[i][2]) ELSE NumCmp(va[i][2], vb[i][2])]
      lo == \E i \in known \ odd : sg[i] < 0
      hi == \E i \in known \ odd : sg[i] > 0
      nc == odd # {} \/ (lo /\ hi)
  IN IF \E i \in 1..n : IsUnk(va[i]) \/ IsUnk(vb[i]) THEN {}
     ELSE {<<e, 0>> : e \in errs} \cup
          (IF nc THEN {<<0, NotComparable>>}
           ELSE IF errs # {} THEN {}
           ELSE {<<0, IF lo THEN Better ELSE IF hi THEN Worse ELSE Equivalent>>})
Compare(h, x, y) ==
  LET a == h[x]  b == h[y] IN
  IF x = y THEN {<<0, Equivalent>>}
  ELSE IF a.r # 0 \/ b.r # 0 \/ a.ctx # b.ctx THEN {<<INVALID_OBJECT, 0>>}
  ELSE IF a.k = "feval" /\ ~SameB(h, a.f, b.f) THEN {<<0, NotComparable>>}
  ELSE PairCmp(h, a, b)
=============================================================================
