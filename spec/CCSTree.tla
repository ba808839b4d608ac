-------------------------------- MODULE CCSTree --------------------------------
(* Trees    [k |-> "tree", ar, val, w, bias, ch, par, ix]                      *)
(*   ch[i]: slot of child i - 1, 0 when not built; par: slot of the parent     *)
(* Tree spaces [k |-> "tspace", name, tree, rng, dyn]                          *)
(*   dyn 0: static; 1: missing children built by a callback; 2: the callback   *)
(*   refuses children of odd index; 4: it gives the parent again for those      *)
(* Tree configurations [k |-> "tconf", sp, pos]                                *)
EXTENDS CCSMap

One == <<"f", 1, 0>>
FAdd(a, b) == LET al == Aligned(a, b) IN MkF(al[1] + al[2], al[3])
FMul(a, b) == MkF(a[2] * b[2], a[3] + b[3])

MkTreeRC(o) == IF o.v[1] \in {"n", "i", "f", "b", "s", "z"} THEN 0 ELSE INVALID_VALUE
MkTree(o) == [k |-> "tree", ar |-> o.ar, val |-> V(o.v), w |-> One, bias |-> One,
              ch |-> [i \in 1..o.ar |-> 0], par |-> 0, ix |-> 0]

RECURSIVE SumT(_, _)
RECURSIVE SlotW(_, _, _)
(* weight of branch i; i = arity: the node itself *)
SlotW(h, t, i) == LET x == h[t] IN
  IF i = x.ar THEN x.w
  ELSE IF x.ch[i + 1] = 0 THEN One ELSE FMul(SumT(h, x.ch[i + 1]), h[x.ch[i + 1]].bias)
SumT(h, t) == LET RECURSIVE S(_)
                  S(i) == IF i > h[t].ar THEN Zero ELSE FAdd(SlotW(h, t, i), S(i + 1))
              IN S(0)

RECURSIVE Pos(_, _)
Pos(h, t) == IF h[t].par = 0 THEN <<>> ELSE Append(Pos(h, h[t].par), h[t].ix)
RECURSIVE Vals(_, _)
Vals(h, t) == IF h[t].par = 0 THEN <<h[t].val>> ELSE Append(Vals(h, h[t].par), h[t].val)
RECURSIVE IsAbove(_, _, _)
IsAbove(h, a, t) == IF t = a THEN TRUE ELSE IF h[t].par = 0 THEN FALSE ELSE IsAbove(h, a, h[t].par)

TreeInfo(h, t) == LET x == h[t] IN
  <<x.ar, x.val, x.w, x.bias, x.ch, x.par, IF x.par = 0 THEN -1 ELSE x.ix, Pos(h, t), Vals(h, t)>>

SetChildRC(h, t, i, c) ==
  IF BadRef(h, c, "tree") THEN INVALID_OBJECT
  ELSE IF i >= h[t].ar THEN OUT_OF_BOUNDS
  ELSE IF h[t].ch[i + 1] # 0 THEN INVALID_VALUE
  ELSE IF h[c].par # 0 THEN INVALID_TREE
  ELSE IF IsAbove(h, c, t) THEN INVALID_TREE
  ELSE 0

(* Walk down from t: <<rc, node, values on the way>> *)
RECURSIVE Walk(_, _, _, _, _)
Walk(h, t, pos, i, vs) ==
  IF i > Len(pos) THEN <<0, t, vs>>
  ELSE IF pos[i] >= h[t].ar THEN <<OUT_OF_BOUNDS, 0, vs>>
  ELSE IF h[t].ch[pos[i] + 1] = 0 THEN <<INVALID_TREE, 0, vs>>
  ELSE LET c == h[t].ch[pos[i] + 1] IN Walk(h, c, pos, i + 1, Append(vs, h[c].val))
(* a position is reachable when every node before its last step exists *)
Reachable(h, t, pos) ==
  Len(pos) = 0 \/ (LET r == Walk(h, t, SubSeq(pos, 1, Len(pos) - 1), 1, <<>>) IN
                   IF r[1] = 0 THEN pos[Len(pos)] < h[r[2]].ar ELSE FALSE)
WalkFrom(h, t, pos) == Walk(h, t, pos, 1, <<h[t].val>>)

(* Walk in a tree space; a dynamic one builds what is missing, numbering the   *)
(* new nodes from nb.  mat: the callbacks made <<parent, index, slot or 0>>    *)
Child(h, t, i) == [k |-> "tree", ar |-> Max2(0, h[t].ar - 1), val |-> <<"i", i>>, w |-> One, bias |-> One,
                   ch |-> [j \in 1..Max2(0, h[t].ar - 1) |-> 0], par |-> t, ix |-> i]
RECURSIVE DWalk(_, _, _, _, _, _)
DWalk(w, sp, pos, i, nb, dummy) ==
  IF w.rc # 0 \/ i > Len(pos) THEN w
  ELSE LET h == w.h  t == w.t IN
  IF pos[i] >= h[t].ar THEN [w EXCEPT !.rc = OUT_OF_BOUNDS]
  ELSE IF h[t].ch[pos[i] + 1] # 0 THEN
    DWalk([w EXCEPT !.t = h[t].ch[pos[i] + 1], !.vs = Append(@, h[h[t].ch[pos[i] + 1]].val)], sp, pos, i + 1, nb, 0)
  ELSE IF sp.dyn = 0 THEN [w EXCEPT !.rc = INVALID_TREE, !.at = i]
  ELSE IF sp.dyn = 2 /\ pos[i] % 2 = 1 THEN [w EXCEPT !.rc = EXTERNAL, !.mat = Append(@, <<t, pos[i], 0>>)]
  ELSE IF sp.dyn = 4 /\ pos[i] % 2 = 1 THEN [w EXCEPT !.rc = INVALID_TREE, !.at = -1, !.mat = Append(@, <<t, pos[i], t>>)]
  ELSE LET s == nb + Len(w.mat) IN
    DWalk([rc |-> 0, at |-> 0, h |-> (s :> Child(h, t, pos[i])) @@ [h EXCEPT ![t].ch[pos[i] + 1] = s], t |-> s,
           vs |-> Append(w.vs, <<"i", pos[i]>>), mat |-> Append(w.mat, <<t, pos[i], s>>)], sp, pos, i + 1, nb, 0)
SWalk(h, sp, pos, nb) ==
  DWalk([rc |-> 0, at |-> 0, h |-> h, t |-> sp.tree, vs |-> <<h[sp.tree].val>>, mat |-> <<>>], sp, pos, 1, nb, 0)

(* a position that sampling may give *)
RECURSIVE GoodPath(_, _, _, _, _)
GoodPath(h, sp, t, pos, i) ==
  IF i > Len(pos) THEN
    h[t].w[2] > 0 (* the node chose itself *)
  ELSE /\ pos[i] < h[t].ar
       /\ IF h[t].ch[pos[i] + 1] = 0 THEN i = Len(pos)
          ELSE SlotW(h, t, pos[i])[2] > 0 /\ GoodPath(h, sp, h[t].ch[pos[i] + 1], pos, i + 1)

(* frequencies c of n draws agree with the weights *)
GoodFreq(h, t, n, tol, c) ==
  LET S == SumT(h, t)
      sc(v) == v[2] * 2^(S[3] + 4 - v[3])  \* common denominator
      W(i) == SlotW(h, t, i)
      K == LET RECURSIVE M(_)
               M(i) == IF i > h[t].ar THEN S[3] ELSE Max2(W(i)[3], M(i + 1))
           IN M(0)
      up(v) == v[2] * 2^(K - v[3])
  IN /\ Len(c) = h[t].ar + 1
     /\ \A i \in 0..h[t].ar : /\ Abs(c[i + 1] * up(S) - n * up(W(i))) <= tol * up(S)
                              /\ W(i)[2] = 0 => c[i + 1] = 0

TreeOps == {"tinfo", "tset", "tw", "tb", "tget", "tcap", "tpos"}
(* <<rc, output, heap>> *)
TreeExec(h, o) ==
  LET x == h[o.s] IN
  CASE o.a = "tinfo" -> <<0, TreeInfo(h, o.s), h>>
    [] o.a = "tset" -> LET rc == SetChildRC(h, o.s, o.i, o.c) IN
         IF rc # 0 THEN <<rc, 0, h>>
         ELSE <<0, 0, [h EXCEPT ![o.s].ch[o.i + 1] = o.c, ![o.c].par = o.s, ![o.c].ix = o.i]>>
    [] o.a = "tw" -> IF o.w[2] < 0 THEN <<INVALID_VALUE, 0, h>> ELSE <<0, 0, [h EXCEPT ![o.s].w = o.w]>>
    [] o.a = "tb" -> IF o.w[2] < 0 THEN <<INVALID_VALUE, 0, h>> ELSE <<0, 0, [h EXCEPT ![o.s].bias = o.w]>>
    [] o.a = "tget" -> IF o.i >= x.ar THEN <<OUT_OF_BOUNDS, 0, h>> ELSE <<0, x.ch[o.i + 1], h>>
    [] o.a = "tcap" ->
         LET n == CASE o.f = "ch" -> x.ar [] o.f = "pos" -> Len(Pos(h, o.s)) [] OTHER -> Len(Vals(h, o.s))
             s == CASE o.f = "ch" -> x.ch [] o.f = "pos" -> Pos(h, o.s) [] OTHER -> Vals(h, o.s)
             z == CASE o.f \in {"ch", "pos"} -> 0 [] OTHER -> None IN
         IF o.n < n THEN <<INVALID_VALUE, 0, h>>
         ELSE <<0, <<n, [i \in 1..o.n |-> IF i <= n THEN s[i] ELSE z]>>, h>>
    [] o.a = "tpos" ->
         LET r == WalkFrom(h, o.s, o.p)
             vs == IF o.n < Len(o.p) + 1 THEN <<INVALID_VALUE>>
                   ELSE IF r[1] # 0 THEN <<r[1]>>
                   ELSE <<0, [i \in 1..o.n |-> IF i <= Len(r[3]) THEN r[3][i] ELSE None]>> IN
         <<0, <<IF Reachable(h, o.s, o.p) THEN 1 ELSE 0, vs, IF r[1] = 0 THEN <<0, r[2]>> ELSE <<r[1]>>>>, h>>

TSpaceInfo(x) == <<IF x.dyn = 0 THEN 0 ELSE 1, x.name, x.tree>>
TSpaceOps == {"tscheck", "tsvals", "tsnode"}
TConfOps == {"tcinfo", "tccap", "tccheck", "tcvals", "tcnode"}
(* <<rc, output, heap, callbacks>> *)
TSpaceExec(h, o) ==
  LET viaconf == o.a \in TConfOps
      c == IF viaconf THEN h[o.b] ELSE [sp |-> o.s, pos |-> o.p]
      own == IF viaconf THEN h[o.b].sp ELSE o.s
      sp == h[own]
      bad == Len(c.pos) + 1 > (IF "n" \in DOMAIN o THEN o.n ELSE 1000)
  IN
  CASE o.a \in {"tscheck", "tccheck"} ->
         IF (IF "s" \in DOMAIN o THEN o.s # own ELSE FALSE) THEN <<INVALID_CONFIGURATION, 0, h, <<>>>>
         ELSE LET w == SWalk(h, sp, c.pos, o.nb) IN
              IF w.rc \in {0, OUT_OF_BOUNDS, INVALID_TREE} /\ w.at # -1 THEN <<0, IF w.rc = 0 \/ (w.rc = INVALID_TREE /\ w.at = Len(c.pos)) THEN 1 ELSE 0, w.h, w.mat>>
              ELSE <<w.rc, 0, w.h, w.mat>>
    [] o.a \in {"tsvals", "tcvals"} ->
         IF bad THEN <<INVALID_VALUE, 0, h, <<>>>>
         ELSE LET w == SWalk(h, sp, c.pos, o.nb)
                  n == IF "n" \in DOMAIN o THEN o.n ELSE Len(c.pos) + 1 IN
              IF w.rc # 0 THEN <<w.rc, 0, w.h, w.mat>>
              ELSE <<0, [i \in 1..n |-> IF i <= Len(w.vs) THEN w.vs[i] ELSE None], w.h, w.mat>>
    [] o.a \in {"tsnode", "tcnode"} ->
         LET w == SWalk(h, sp, c.pos, o.nb) IN <<w.rc, IF w.rc = 0 THEN w.t ELSE 0, w.h, w.mat>>
    [] o.a = "tcinfo" -> <<0, <<c.sp, c.pos, Len(c.pos) + 1>>, h, <<>>>>
    [] o.a = "tccap" -> IF o.n < Len(c.pos) THEN <<INVALID_VALUE, 0, h, <<>>>> ELSE <<0, <<Len(c.pos), c.pos>>, h, <<>>>>
=============================================================================
