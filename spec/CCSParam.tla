------------------------------- MODULE CCSParam -------------------------------
(* Parameters: records [k |-> "param", pk, name, dt, lo, hi, q, df, vals, di]   *)
EXTENDS CCSValues

NumParam(name, dt, lo, hi, q, df) ==
  [k |-> "param", pk |-> "num", name |-> name, dt |-> dt, lo |-> lo, hi |-> hi, q |-> q, df |-> df,
   vals |-> <<>>]
EnumParam(pk, name, vals, di) ==
  [k |-> "param", pk |-> pk, name |-> name, dt |-> "", lo |-> None, hi |-> None, q |-> None,
   df |-> V(vals[di + 1]), vals |-> [i \in 1..Len(vals) |-> V(vals[i])]]
StrParam(name) ==
  [k |-> "param", pk |-> "str", name |-> name, dt |-> "", lo |-> None, hi |-> None, q |-> None,
   df |-> None, vals |-> <<>>]

NumSub(a, b) == LET al == Aligned(a, b) IN <<"f", al[1] - al[2], al[3]>>
Extreme(v) == Abs(v[2]) > 900000

(* 0 when the description is consistent, the error code otherwise *)
MkParamRC(o) ==
  CASE o.k = "num" ->
       IF \/ ~NumLt(o.lo, o.hi)
          \/ NumLt(o.q, <<"i", 0>>)
          \/ (~Extreme(o.lo) /\ ~Extreme(o.hi) /\ NumLt(NumSub(o.hi, o.lo), o.q))
          \/ NumLt(o.df, o.lo) \/ ~NumLt(o.df, o.hi)
       THEN INVALID_VALUE ELSE 0
    [] o.k = "str" -> 0
    [] OTHER ->
       IF \/ Len(o.vals) = 0 \/ o.di >= Len(o.vals)
          \/ \E i \in 1..Len(o.vals) :
               o.vals[i][1] \notin (IF o.k = "disc" THEN {"i", "f"} ELSE {"n", "i", "f", "b", "s"})
          \/ \E i, j \in 1..Len(o.vals) : i < j /\ o.vals[i] = o.vals[j]
       THEN INVALID_VALUE ELSE 0
MkParam(o) ==
  CASE o.k = "num" -> NumParam(o.name, o.dt, o.lo, o.hi, o.q, o.df)
    [] o.k = "str" -> StrParam(o.name)
    [] OTHER -> EnumParam(o.k, o.name, o.vals, o.di)

InDomain(p, v) ==
  CASE p.pk = "num" -> v[1] = p.dt /\ NumLe(p.lo, v) /\ NumLt(v, p.hi)
    [] p.pk = "str" -> v[1] = "s"
    [] OTHER -> \E i \in 1..Len(p.vals) : p.vals[i] = v
Validated(p, v) == IF InDomain(p, v) THEN v ELSE Inactive

OrdIndex(p, v) == CHOOSE i \in 1..Len(p.vals) : p.vals[i] = v
OrdCmp(p, a, b) == Sgn(OrdIndex(p, a) - OrdIndex(p, b))

SamplingInterval(p) ==
  IF p.pk = "num" THEN <<p.lo, p.hi, 1, 0>>
  ELSE <<<<"i", 0>>, <<"i", Len(p.vals)>>, 1, 0>>

(* the description read back *)
ParamInfo(p) ==
  <<p.pk, p.name, p.df,
    CASE p.pk = "num" -> <<p.lo, p.hi, p.q>> [] p.pk = "str" -> <<>> [] OTHER -> p.vals>>
=============================================================================
