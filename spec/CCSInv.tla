-------------------------------- MODULE CCSInv --------------------------------
(* What holds of every state of the library, whatever was called.             *)
EXTENDS CCS
Of(st, k) == {s \in DOMAIN st.h : st.h[s].k \in k}
(* C01: an object lives exactly as long as the caller or a living object holds it *)
Reached(st) == DOMAIN st.h = Live(st) /\ \A s \in DOMAIN st.h : Kids(st.h[s]) \subseteq DOMAIN st.h
(* C02: parameters of a context have distinct names, expressions only talk of them *)
Distinct(st) == \A s \in Of(st, {"cs", "fs", "os"}) : LET c == st.h[s] IN
  \A i, j \in 1..Len(c.ps) : i # j => st.h[c.ps[i]].name # st.h[c.ps[j]].name
Closed(st) == \A s \in Of(st, {"cs"}) : LET c == st.h[s] IN
  \A e \in (Range(c.cond) \cup Range(c.forb)) \ {0} : EParams(st.h, e) \subseteq Range(c.ps)
(* C03: conditions never make a cycle *)
NoCycle(st) == \A s \in Of(st, {"cs"}) : Acyclic(st.h, st.h[s])
(* C06: every parameter draws from one component of one distribution, and no two from the same *)
Drawn(st) == \A s \in Of(st, {"cs"}) : LET c == st.h[s] IN
  /\ Len(c.ds) = Len(c.ps)
  /\ \A i \in 1..Len(c.ds) : c.ds[i][1] # 0 => c.ds[i][2] < Dim(st.h, c.ds[i][1])
(* C12: a map has a key once *)
Keys(st) == \A s \in Of(st, {"map"}) : LET es == st.h[s].es IN
  \A i, j \in 1..Len(es) : i # j => ~Same(es[i][1], es[j][1])
(* C16: children and parents agree, and there is no way back up *)
RECURSIVE Root(_, _, _)
Root(h, t, n) == IF n = 0 THEN FALSE ELSE IF h[t].par = 0 THEN TRUE ELSE Root(h, h[t].par, n - 1)
Forest(st) == \A s \in Of(st, {"tree"}) : LET t == st.h[s] IN
  /\ \A i \in 1..Len(t.ch) : t.ch[i] # 0 => st.h[t.ch[i]].par = s /\ st.h[t.ch[i]].ix = i - 1
  /\ t.par # 0 => st.h[t.par].ch[t.ix + 1] = s
  /\ Root(st.h, s, Cardinality(DOMAIN st.h))
(* C15: what a tuner keeps as best is part of what it was told, none of it is worse than *)
(* another part, and everything told is matched or beaten                                 *)
Beats(h, a, b) == <<0, -1>> \in Compare(h, a, b)
Ties(h, a, b) == <<0, 0>> \in Compare(h, a, b)
SameFeat(h, x, a, b) == x.k = "ftuner" => SameB(h, h[a].f, h[b].f)
Best(st) == \A s \in Of(st, {"tuner", "ftuner", "ttuner"}) : LET x == st.h[s]  h == st.h IN
  x.usr # -1 \/ x.amb
  \/ /\ Range(x.opt) \subseteq Range(x.hist)
     /\ \A a, b \in Range(x.opt) : SameFeat(h, x, a, b) => ~Beats(h, a, b)
     /\ \A a \in Range(x.hist) : h[a].r = 0 =>
           \E b \in Range(x.opt) : SameFeat(h, x, a, b) /\ (a = b \/ Beats(h, b, a) \/ Ties(h, b, a)
                                                     \/ \A r \in Compare(h, a, b) : r[1] # 0)
Sound(st) == Reached(st) /\ Distinct(st) /\ Closed(st) /\ NoCycle(st) /\ Drawn(st) /\ Keys(st) /\ Forest(st) /\ Best(st)
=============================================================================
