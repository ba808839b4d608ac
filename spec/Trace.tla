--------------------------------- MODULE Trace ---------------------------------
(* Is a recorded execution one of the behaviours of module CCS ?              *)
(* The file holds many executions, each introduced by a "begin" event; after  *)
(* a rejected event the rest of that execution is skipped.                    *)
EXTENDS CCS, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, skip, bad
vars == <<l, st, skip, bad>>

Init == l = 1 /\ st = St0 /\ skip = FALSE /\ bad = 0
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.a = "begin" THEN st' = St0 /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<st, skip, bad>>
     ELSE LET y == Step(st, ev) IN
          IF y.ok THEN st' = y.st /\ skip' = FALSE /\ bad' = bad
          ELSE \* one line of text: TLC breaks long tuples over several lines
               /\ PrintT("MISMATCH " \o ToString(l) \o " " \o ToString(y.x))
               /\ st' = st /\ skip' = TRUE /\ bad' = bad + 1
  /\ (l = Len(Trace) => PrintT("TOTAL " \o ToString(bad')))
Spec == Init /\ [][Next]_vars
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
