------------------------------ MODULE CCSStream -------------------------------
(* Objects written to, and read from, descriptors.                             *)
(* The environment answers each transfer with a number of bytes (> 0), END (a  *)
(* read finds the end of the stream), or by BLOCK, INTR, IO.  A call makes     *)
(* transfers until the object is complete (Done) or an answer stops it.        *)
(*   blocking: BLOCK and INTR are tried again                                  *)
(*   non-blocking: BLOCK suspends the operation, which a later call resumes    *)
(* A call is judged by the answers it got, not by how much it asked for.       *)
EXTENDS CCSUser

END == 0
BLOCK == -1
INTR == -2
IO == -3

(* what must come of a call, given that got bytes of n are already through, and the
   answers it got; <<outcome, bytes through>>; "over": it should have stopped before *)
RECURSIVE Outcome(_, _, _, _, _)
Outcome(n, got, log, nb, rd) ==
  IF log = <<>> THEN <<IF got = n THEN "done" ELSE "stopped early", got>>
  ELSE LET a == Head(log)  rest == Tail(log)
           last(w) == <<IF rest = <<>> THEN w ELSE "over", got>> IN
       IF got = n THEN <<"over", got>>
       ELSE IF a > 0 THEN IF got + a > n THEN <<"over", got>> ELSE Outcome(n, got + a, rest, nb, rd)
       ELSE IF a = IO THEN last("error")
       ELSE IF a = BLOCK /\ nb THEN last("again")
       ELSE IF a = END /\ rd THEN last("end")
       ELSE Outcome(n, got, rest, nb, rd)
StreamRC(w) == CASE w = "again" -> AGAIN [] w = "error" -> SYSTEM [] w = "end" -> NOT_ENOUGH_DATA [] OTHER -> 0
(* a stream: being read (rd) it has the objects bs to give; got bytes of the current object
   are through; b: the one being written, 0 if none *)
NewStream(o) == [bs |-> o.qb, got |-> 0, b |-> 0, bad |-> FALSE]
=============================================================================
