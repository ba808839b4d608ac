-------------------------------- MODULE CCSErr ---------------------------------
(* Errors of threads.  Each thread owns at most one error: the last call that    *)
(* failed in this thread left it there.  Taking it (get) gives it to the caller, *)
(* setting one gives it to the thread; what a thread owned before is released.   *)
(* e = [cur: per thread, the error it owns or 0;  x: per variable of the caller, *)
(*      the error held there or 0;  o: the errors]                               *)
(* an error: its code, its message ("": some), the lines pushed by the caller,    *)
(* whether the library made it (then it also has places of its own), its count   *)
EXTENDS CCSStream, Integers

ErrThreads == {1, 2}
ErrVars == 1..4
Err0 == [cur |-> [t \in ErrThreads |-> 0], x |-> [v \in ErrVars |-> 0], o |-> <<>>]
FreeId(e) == CHOOSE i \in 1..7 : i \notin DOMAIN e.o /\ \A j \in 1..7 : j < i => j \in DOMAIN e.o
Drop1(e, i) == IF i = 0 THEN e
               ELSE IF e.o[i].rc = 1 THEN [e EXCEPT !.o = [j \in DOMAIN @ \ {i} |-> @[j]]]
               ELSE [e EXCEPT !.o[i].rc = @ - 1]
NewErr(e, code, msg, auto) == [e EXCEPT !.o = (FreeId(e) :> [code |-> code, msg |-> msg, lines |-> <<>>, auto |-> auto, rc |-> 1]) @@ @]
(* the thread now owns i *)
Own(e, t, i) == [Drop1(e, e.cur[t]) EXCEPT !.cur[t] = i]
(* the library makes an error, that replaces what the thread had *)
MakeIn(e, t, code, msg, auto) ==
  LET a == [Drop1(e, e.cur[t]) EXCEPT !.cur[t] = 0]
      i == FreeId(a)
  IN [NewErr(a, code, msg, auto) EXCEPT !.cur[t] = i]
ER(rc, o, e) == [rc |-> rc, o |-> o, e |-> e]

ExErr(e, op) ==
  LET t == op.th
      x == IF "x" \in DOMAIN op THEN e.x[op.x] ELSE 0
      k == op.k IN
  CASE k = "fail" -> ER(op.code, 0, MakeIn(e, t, op.code, "", TRUE))
    [] k = "ok" -> ER(0, 0, e)
    [] k = "make" -> ER(0, 0, MakeIn(e, t, op.code, op.m, FALSE))
    [] k = "tpush" -> IF e.cur[t] = 0 THEN ER(INVALID_OBJECT, 0, e)
                      ELSE ER(0, 0, [e EXCEPT !.o[e.cur[t]].lines = Append(@, op.line)])
    [] k = "get" -> ER(0, IF e.cur[t] = 0 THEN 0 ELSE 1, [e EXCEPT !.cur[t] = 0, !.x[op.x] = e.cur[t]])
    [] k = "set" -> IF x = 0 THEN ER(INVALID_OBJECT, 0, e)
                    ELSE ER(0, 0, Own([e EXCEPT !.x[op.x] = 0], t, x))
    [] k = "share" -> ER(0, 0, Own([e EXCEPT !.o[x].rc = @ + 1], t, x))
    [] k = "setbad" -> ER(INVALID_OBJECT, 0, e)
    [] k = "clear" -> ER(0, 0, Own(e, t, 0))
    [] k = "new" -> ER(0, 0, [NewErr(e, op.code, op.m, FALSE) EXCEPT !.x[op.x] = FreeId(e)])
    [] k = "push" -> IF x = 0 THEN ER(INVALID_OBJECT, 0, e) ELSE ER(0, 0, [e EXCEPT !.o[x].lines = Append(@, op.line)])
    [] k = "rel" -> ER(0, 0, [Drop1(e, x) EXCEPT !.x[op.x] = 0])
    [] k = "read" -> IF x = 0 THEN ER(INVALID_OBJECT, 0, e) ELSE ER(0, e.o[x], e)
(* what a reader sees of error r: <<code, message, count, lines>> *)
Seen(r, o) ==
  /\ o[1] = r.code /\ (IF r.msg = "" THEN o[2] # "" ELSE o[2] = r.msg) /\ o[3] = r.rc
  /\ LET n == Len(o[4])  p == Len(r.lines) IN
     /\ IF r.auto THEN n > p ELSE n = p
     /\ \A i \in 1..p : o[4][n - p + i] = r.lines[i]
SeenAll(e, ev) ==
  /\ \A t \in ErrThreads : IF e.cur[t] = 0 THEN ev.pk[t] = <<>> ELSE ev.pk[t] # <<>> /\ Seen(e.o[e.cur[t]], ev.pk[t])
  /\ \A v \in 1..Len(ev.pv) : IF e.x[v] = 0 THEN ev.pv[v] = <<>> ELSE ev.pv[v] # <<>> /\ Seen(e.o[e.x[v]], ev.pv[v])
ErrOk(e, ev) ==
  LET r == ExErr(e, ev) IN
  /\ ev.rc = r.rc /\ (r.rc # 0 \/ IF ev.k = "read" THEN Seen(r.o, ev.o) ELSE ev.o = r.o)
  /\ "pk" \in DOMAIN ev => SeenAll(r.e, ev)
=============================================================================
