------------------------------- MODULE MCStream -------------------------------
(* Every schedule of answers of a descriptor, for an object of N bytes whose   *)
(* first H bytes tell its size.  A caller calls until the operation ends.      *)
(* Explores the reader and the writer, blocking or not; each schedule is       *)
(* printed, and replayed on the library.                                       *)
EXTENDS CCSStream, Json, IOUtils
N == 26
H == 13
L == atoi(IOEnv.LEN)       \* answers the environment chooses; after them it is willing
Chunks == {1, 12, 13, 14, 25, 1000000}
VARIABLES rd, nb, got, ask, log, calls, rc, left
vars == <<rd, nb, got, ask, log, calls, rc, left>>
Answers == Chunks \cup {BLOCK, INTR, IO} \cup (IF rd THEN {END} ELSE {})

Init == /\ rd \in BOOLEAN /\ nb \in BOOLEAN
        /\ got = 0 /\ ask = (IF rd THEN H ELSE N) /\ log = <<>> /\ calls = <<>> /\ rc = 100 /\ left = L
(* rc = 100: inside a call *)
Return(r) == rc' = r /\ calls' = Append(calls, log')
Min(a, b) == IF a < b THEN a ELSE b
Transfer(a) ==
  /\ rc = 100 /\ got < N
  /\ IF a > 0 THEN LET k == Min(a, ask) IN
          /\ got' = got + k /\ log' = Append(log, k)
          /\ ask' = IF ask - k = 0 /\ got' < N THEN N - H ELSE ask - k
          /\ IF got' = N THEN Return(0) ELSE UNCHANGED <<rc, calls>>
     ELSE /\ log' = Append(log, a) /\ UNCHANGED <<got, ask>>
          /\ IF a = IO THEN Return(SYSTEM)
             ELSE IF a = BLOCK /\ nb THEN Return(AGAIN)
             ELSE IF a = END /\ rd THEN Return(NOT_ENOUGH_DATA)
             ELSE UNCHANGED <<rc, calls>>
  /\ UNCHANGED <<rd, nb>>
Resume == rc = AGAIN /\ rc' = 100 /\ log' = <<>> /\ UNCHANGED <<rd, nb, got, ask, calls, left>>
Next == \/ \E a \in Answers : left > 0 /\ Transfer(a) /\ left' = left - 1
        \/ left = 0 /\ Transfer(1000000) /\ left' = 0
        \/ Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a call returns what the specification says of its answers *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (IF Head(q) > 0 THEN Head(q) ELSE 0) + Sum(Tail(q))
Agree == rc # 100 =>
  LET w == Outcome(N, got - Sum(log), log, nb, rd) IN w[1] \notin {"over", "stopped early"} /\ StreamRC(w[1]) = rc /\ w[2] = got
Whole == rc = 0 => got = N
Bounded == got <= N /\ got + ask <= N
Ends == <>(rc \in {0, SYSTEM, NOT_ENOUGH_DATA})
Again == ~nb => rc # AGAIN
Final == rc \in {0, SYSTEM, NOT_ENOUGH_DATA}
Emit == Final => PrintT("EMIT " \o ToJson([rd |-> rd, nb |-> nb, calls |-> calls]))
=============================================================================
