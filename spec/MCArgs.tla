-------------------------------- MODULE MCArgs --------------------------------
(* Every public function, called with no, one or two arguments that are not     *)
(* what they should be.  Each call is printed, and made on the library.          *)
EXTENDS CCSArgs, Json, IOUtils
VARIABLES f, ws
Pairs == atoi(IOEnv.PAIRS)     \* 0: single faults, 1: and pairs of typical ones, 2: all pairs
Typical(w) == w[2] \notin {"wrong", "ewrong", "over"} \/ w[3] \in {"map", "str", "2^32", "max"}
Two(g) == {{a, b} : a, b \in {w \in Faults(g) : Pairs = 2 \/ Typical(w)}}
Init == /\ f \in DOMAIN Sig
        /\ ws \in {{}} \cup {{w} : w \in Faults(f)} \cup (IF Pairs = 0 THEN {} ELSE {x \in Two(f) : \A a, b \in x : a # b => a[1] # b[1]})
Next == UNCHANGED <<f, ws>>
Spec == Init /\ [][Next]_<<f, ws>>
Answered == CallCodes(f, ws) # {} /\ (ws # {} => \A c \in CallCodes(f, ws) : c < 0)
Emit == PrintT("EMIT " \o ToJson([f |-> f, g |-> Sig[f], w |-> ws]))
=============================================================================
