--------------------------------- MODULE MCErr ---------------------------------
(* Two threads that fail, succeed, make, take, give, share and drop errors.      *)
(* Every transition between states of this model is printed; walks through all    *)
(* of them are made on two threads of a process that uses the library.           *)
EXTENDS CCSErr, Json, IOUtils, TLCExt
VARIABLES e, last
Vars == 1..atoi(IOEnv.VARS)
Lines == atoi(IOEnv.LINES)
Op(k, t) == [a |-> "err", k |-> k, th |-> t]
Can(v, x) == e.x[v] = 0 <=> x = 0
Ops == UNION {
  {[a |-> "err", k |-> "fail", th |-> t, code |-> c] : t \in ErrThreads, c \in {INVALID_VALUE, INVALID_NAME}},
  {Op(k, t) : k \in {"ok", "clear", "setbad"}, t \in ErrThreads},
  {[a |-> "err", k |-> "make", th |-> t, code |-> INVALID_TREE, m |-> "made 7"] : t \in ErrThreads},
  {[a |-> "err", k |-> "tpush", th |-> t, line |-> 3] : t \in {t \in ErrThreads : e.cur[t] = 0 \/ Len(e.o[e.cur[t]].lines) < Lines}},
  {[a |-> "err", k |-> "get", th |-> t, x |-> v] : t \in ErrThreads, v \in {v \in Vars : e.x[v] = 0}},
  {[a |-> "err", k |-> "set", th |-> t, x |-> v] : t \in ErrThreads, v \in Vars},
  {[a |-> "err", k |-> "share", th |-> t, x |-> v] : t \in ErrThreads, v \in {v \in Vars : e.x[v] # 0}},
  {[a |-> "err", k |-> "new", th |-> t, x |-> v, code |-> INVALID_TREE, m |-> "new 7"] : t \in ErrThreads, v \in {v \in Vars : e.x[v] = 0}},
  {[a |-> "err", k |-> "push", th |-> t, x |-> v, line |-> 4] : t \in ErrThreads, v \in {v \in Vars : e.x[v] = 0 \/ Len(e.o[e.x[v]].lines) < Lines}},
  {[a |-> "err", k |-> "rel", th |-> t, x |-> v] : t \in ErrThreads, v \in {v \in Vars : e.x[v] # 0}},
  {[a |-> "err", k |-> "read", th |-> t, x |-> v] : t \in ErrThreads, v \in Vars}}
Id(x) == <<TLCFP(x), TLCFP(<<x>>)>>
Init == e = Err0 /\ last = <<>> /\ PrintT("EMIT " \o ToJson([init |-> Id(e)]))
Next == \E op \in Ops :
  LET r == ExErr(e, op) IN
  /\ PrintT("EMIT " \o ToJson([f |-> Id(e), op |-> op, t |-> Id(r.e)]))
  /\ e' = r.e /\ last' = op
Spec == Init /\ [][Next]_<<e, last>>
View == e
Holders(i) == Cardinality({t \in ErrThreads : e.cur[t] = i}) + Cardinality({v \in ErrVars : e.x[v] = i})
(* an error lives exactly as long as a thread or the caller holds it *)
Counted == \A i \in DOMAIN e.o : e.o[i].rc = Holders(i) /\ e.o[i].rc > 0
Alive == \A t \in ErrThreads : e.cur[t] # 0 => e.cur[t] \in DOMAIN e.o
(* a thread's error is touched by this thread only *)
Private == [][\A t \in ErrThreads : last'.th # t => e'.cur[t] = e.cur[t]]_<<e, last>>
(* a call that fails leaves its code; one that manipulates errors leaves none of its own *)
Reported == [][last'.k = "fail" => e'.cur[last'.th] # 0 /\ e'.o[e'.cur[last'.th]].code = last'.code]_<<e, last>>
=============================================================================
