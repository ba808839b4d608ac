------------------------------- MODULE CCSTuner -------------------------------
(* Random tuners [k |-> "tuner" | "ftuner" | "ttuner", name, cs, fs, os,        *)
(*    hist, opt, amb, usr, dat, st]   (the last three: see CCSUser)            *)
(*  cs: configuration (or tree) space, fs: features space or 0; hist, opt:     *)
(*  evaluations; amb: an evaluation was told whose comparison is not settled    *)
EXTENDS CCSTree

TunerKids(x) == {x.cs, x.fs, x.os} \cup Range(x.hist) \cup Range(x.opt)
SpKind(k) == IF k = "ttuner" THEN "tspace" ELSE "cs"
EvKind(k) == CASE k = "tuner" -> "eval" [] k = "ftuner" -> "feval" [] k = "ttuner" -> "teval"
MkTunerRC(h, o) ==
  IF BadRef(h, o.cs, SpKind(o.k)) \/ BadRef(h, o.os, "os") \/ (o.k = "ftuner" /\ BadRef(h, o.fs, "fs"))
  THEN INVALID_OBJECT ELSE 0
MkTuner(o) == [k |-> o.k, name |-> o.name, cs |-> o.cs, fs |-> IF o.k = "ftuner" THEN o.fs ELSE 0, os |-> o.os,
               hist |-> <<>>, opt |-> <<>>, amb |-> FALSE, usr |-> -1, dat |-> 0, st |-> 0]

(* one evaluation told *)
CmpOf(h, e, o) == LET r == Compare(h, e, o) IN
  IF Cardinality(r) # 1 THEN <<"amb">> ELSE LET x == CHOOSE y \in r : TRUE IN
  IF x[1] # 0 THEN <<"err">> ELSE <<"cmp", x[2]>>
(* index of the first optimum that is at least as good as e (or cannot be compared to it at all), 0 if none *)
FirstStop(h, opt, e) ==
  LET st == {i \in 1..Len(opt) : LET r == CmpOf(h, e, opt[i]) IN
               r[1] = "err" \/ (IF r[1] = "cmp" THEN r[2] \in {Equivalent, Worse} ELSE FALSE)}
  IN IF st = {} THEN 0 ELSE CHOOSE i \in st : \A j \in st : i <= j
TellOne(h, x, e) ==
  IF h[e].r # 0 THEN x
  ELSE LET stop == FirstStop(h, x.opt, e)
           amb == x.amb \/ \E i \in 1..Len(x.opt) : CmpOf(h, e, x.opt[i])[1] = "amb"
           beaten(i) == LET r == CmpOf(h, e, x.opt[i]) IN IF r[1] = "cmp" THEN r[2] = Better ELSE FALSE
           RECURSIVE Keep(_)
           Keep(i) == IF i > Len(x.opt) THEN <<>>
                      ELSE (IF (stop = 0 \/ i < stop) /\ beaten(i) THEN <<>> ELSE <<x.opt[i]>>) \o Keep(i + 1)
       IN [x EXCEPT !.hist = Append(@, e), !.amb = amb, !.opt = Keep(1) \o (IF stop = 0 THEN <<e>> ELSE <<>>)]
RECURSIVE TellAll(_, _, _, _)
TellAll(h, x, es, i) ==
  IF i > Len(es) THEN <<0, x>>
  ELSE IF BadRef(h, es[i], EvKind(x.k)) THEN <<INVALID_OBJECT, x>>
  ELSE TellAll(h, TellOne(h, x, es[i]), es, i + 1)

(* the non dominated ones of a history, first told of equivalent ones *)
Dominates(h, a, b) == Compare(h, a, b) = {<<0, Better>>}
NonDominated(h, hist) ==
  {i \in 1..Len(hist) :
     /\ \A j \in 1..Len(hist) : ~Dominates(h, hist[j], hist[i])
     /\ \A j \in 1..(i - 1) : Compare(h, hist[i], hist[j]) # {<<0, Equivalent>>}}

(* restricted to some features; 0: all *)
Matching(h, es, f) == IF f = 0 THEN es ELSE SelectSeq(es, LAMBDA e : SameB(h, h[e].f, f))
FeatRC(h, x, f) ==
  IF BadRef(h, f, "feat") THEN INVALID_OBJECT
  ELSE IF h[f].ctx # x.fs THEN INVALID_FEATURES
  ELSE IF Len(h[f].vals) # Len(h[x.fs].ps) THEN INVALID_FEATURES
  ELSE IF \A i \in 1..Len(h[f].vals) : InDomain(h[h[x.fs].ps[i]], h[f].vals[i]) THEN 0 ELSE INVALID_FEATURES

TunerOps == {"tuinfo", "tell", "tuhist", "tuopt"}
(* <<rc, output, tuner>> *)
TunerExec(h, o) ==
  LET x == h[o.s] IN
  CASE o.a = "tuinfo" -> <<0, IF x.k = "ftuner" THEN <<x.k, x.name, x.cs, x.os, x.fs>> ELSE <<x.k, x.name, x.cs, x.os>>, x>>
    [] o.a = "tell" -> LET r == TellAll(h, x, o.es, 1) IN <<r[1], 0, r[2]>>
    [] o.a \in {"tuhist", "tuopt"} ->
         LET f == IF "f" \in DOMAIN o THEN o.f ELSE 0
             l == Matching(h, IF o.a = "tuhist" THEN x.hist ELSE x.opt, f)
             n == IF "n" \in DOMAIN o THEN o.n ELSE Len(l) IN
         IF o.a = "tuopt" /\ x.amb THEN <<0, Unk, x>>
         ELSE IF n < Len(l) THEN <<INVALID_VALUE, 0, x>>
         ELSE <<0, <<Len(l), [i \in 1..n |-> IF i <= Len(l) THEN l[i] ELSE 0]>>, x>>
=============================================================================
