--------------------------------- MODULE MCRun ---------------------------------
(* All that can happen to some objects (made by the operations pre) with the   *)
(* operations of an alphabet, according to module CCS.  Every transition is    *)
(* printed; walks that take all of them are then made on the library.          *)
(* mem remembers the last operation that changed nothing (one that was         *)
(* refused, say): what the library may wrongly keep of it is looked at with    *)
(* everything that can come next.                                              *)
EXTENDS CCSInv, Json, IOUtils, TLCExt
Script == JsonDeserialize(IOEnv.SCRIPT)
First == Script.pre
Alpha == Script.alpha
Depth == Script.depth
Mem == Script.mem = 1
VARIABLES st, mem, n
vars == <<st, mem, n>>
Do(s, op) ==
  CASE op.a \in MiscAcc -> Core(s, op @@ [rc |-> 0, o |-> 0]).st
    [] op.a \in TSpaceOps -> [s EXCEPT !.h = TSpaceExec(s.h, op)[3]]
    [] OTHER -> Exec(s, op).st
RECURSIVE All(_, _)
All(s, i) == IF i > Len(First) THEN s ELSE All(Do(s, First[i]), i + 1)
Can(s, op) ==
  /\ Range(Opt(op, "need", <<>>)) \subseteq Held(s)
  /\ Range(Opt(op, "free", <<>>)) \cap DOMAIN s.h = {}
  /\ ("max" \in DOMAIN op => s.u[op.s] < op.max)
  /\ ("hmax" \in DOMAIN op => Len(s.h[op.s].hist) < op.hmax)
Id(x) == <<TLCFP(x), TLCFP(<<x>>)>>
Init == /\ st = All(St0, 1) /\ mem = 0 /\ n = 0
        /\ PrintT("EMIT " \o ToJson([init |-> Id(<<st, mem>>)]))
Next == \E i \in 1..Len(Alpha) :
  /\ n < Depth /\ Can(st, Alpha[i])
  /\ st' = Do(st, Alpha[i])
  /\ mem' = IF Mem /\ st' = st THEN i ELSE mem
  /\ n' = n + 1
  /\ PrintT("EMIT " \o ToJson([f |-> Id(<<st, mem>>), op |-> i, t |-> Id(<<st', mem'>>)]
                             @@ (IF Script.held = 1 THEN [h |-> Held(st')] ELSE <<>>)))
Spec == Init /\ [][Next]_vars
View == <<st, mem>>
Good == Sound(st)
=============================================================================
