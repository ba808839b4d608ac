------------------------------- MODULE CCSDist -------------------------------
(* Distributions:                                                             *)
(*  [k |-> "dist", dk |-> "uni", dt, lo, hi, sc, q]     sc 1: logarithmic       *)
(*  [.. dk |-> "nor", dt, mu, sigma, sc, q]  [.. dk |-> "rou", ws]             *)
(*  [.. dk |-> "mix", ds, ws]  [.. dk |-> "mul", ds]                           *)
EXTENDS CCSExpr

Num0(dt) == IF dt = "i" THEN <<"i", 0>> ELSE Zero
IsZ(v) == v[2] = 0
RECURSIVE SumW(_, _)
SumW(ws, i) == IF i > Len(ws) THEN <<0, 0>>
               ELSE LET s == SumW(ws, i + 1)
                        K == Max2(s[2], ws[i][3]) IN
                    <<s[1] * 2^(K - s[2]) + ws[i][2] * 2^(K - ws[i][3]), K>>
TotW(ws) == SumW(ws, 1)

RECURSIVE Dim(_, _)
RECURSIVE SumDim(_, _, _)
Dim(h, d) == CASE h[d].dk = "mix" -> Dim(h, h[d].ds[1])
               [] h[d].dk = "mul" -> SumDim(h, h[d].ds, 1)
               [] OTHER -> 1
SumDim(h, ds, i) == IF i > Len(ds) THEN 0 ELSE Dim(h, ds[i]) + SumDim(h, ds, i + 1)

RECURSIVE DTypes(_, _)
RECURSIVE CatDT(_, _, _)
DTypes(h, d) == CASE h[d].dk = "mix" -> DTypes(h, h[d].ds[1])
                  [] h[d].dk = "mul" -> CatDT(h, h[d].ds, 1)
                  [] h[d].dk = "rou" -> <<"i">>
                  [] OTHER -> <<h[d].dt>>
CatDT(h, ds, i) == IF i > Len(ds) THEN <<>> ELSE DTypes(h, ds[i]) \o CatDT(h, ds, i + 1)

(* ---- intervals <<lower, upper, lower included, upper included>> ---------- *)
IvIn(iv, v) == /\ (IF iv[3] = 1 THEN NumLe(iv[1], v) ELSE NumLt(iv[1], v))
               /\ (IF iv[4] = 1 THEN NumLe(v, iv[2]) ELSE NumLt(v, iv[2]))
(* first and last integer of an integer interval *)
IvFst(iv) == iv[1][2] + 1 - iv[3]
IvLst(iv) == iv[2][2] - 1 + iv[4]
IvEmpty(iv) == IF iv[1][1] = "i" THEN IvFst(iv) > IvLst(iv)
               ELSE IF iv[3] = 1 /\ iv[4] = 1 THEN NumLt(iv[2], iv[1]) ELSE NumLe(iv[2], iv[1])
IvSame(a, b) == \/ IvEmpty(a) /\ IvEmpty(b)
                \/ /\ ~IvEmpty(a) /\ ~IvEmpty(b)
                   /\ IF a[1][1] = "i" THEN IvFst(a) = IvFst(b) /\ IvLst(a) = IvLst(b)
                      ELSE NumCmp(a[1], b[1]) = 0 /\ NumCmp(a[2], b[2]) = 0 /\ a[3] = b[3] /\ a[4] = b[4]
(* order of lower (upper) ends: the lower end starting first                 *)
LoBefore(a, b) == NumLt(a[1], b[1]) \/ (NumCmp(a[1], b[1]) = 0 /\ a[3] >= b[3])
HiAfter(a, b) == NumLt(b[2], a[2]) \/ (NumCmp(a[2], b[2]) = 0 /\ a[4] >= b[4])
IvInter(a, b) == LET l == IF LoBefore(a, b) THEN b ELSE a
                     u == IF HiAfter(a, b) THEN b ELSE a IN <<l[1], u[2], l[3], u[4]>>
IvUnion(a, b) == IF IvEmpty(a) THEN b ELSE IF IvEmpty(b) THEN a
                 ELSE LET l == IF LoBefore(a, b) THEN a ELSE b
                          u == IF HiAfter(a, b) THEN a ELSE b IN <<l[1], u[2], l[3], u[4]>>
IvSub(a, b) == IvSame(IvInter(a, b), a)

(* ---- bounds ------------------------------------------------------------- *)
RECURSIVE PowMod(_, _)
PowMod(n, q) == IF n = 0 THEN 1 % q ELSE (2 * PowMod(n - 1, q)) % q
(* quantizations 800001..800008 stand for 2 INT_MAX / (2 k + 1), k = 9..2     *)
QFrac(q) == q > 800000 /\ q < 900000
IMAXq(q) == <<"i", IF q = 1000010 THEN q ELSE IF QFrac(q) THEN 900000
                   ELSE 1000010 - ((PowMod(63, q) + q - 1) % q)>>
IMINq(q) == <<"i", IF q = 1000010 THEN 1 - q ELSE IF QFrac(q) THEN -900000
                   ELSE -1000010 + PowMod(63, q)>>
INF == <<"f", 2097152, 0>>
NINF == <<"f", -2097152, 0>>
NorBounds(x) ==
  IF x.sc = 1 THEN
    IF x.dt = "f" THEN (IF IsZ(x.q) THEN <<Zero, INF, 0, 0>> ELSE <<x.q, INF, 1, 0>>)
    ELSE IF IsZ(x.q) THEN <<<<"i", 1>>, IMAXq(1), 1, 1>> ELSE <<x.q, IMAXq(x.q[2]), 1, 1>>
  ELSE IF x.dt = "f" THEN <<NINF, INF, 0, 0>>
  ELSE LET q == IF IsZ(x.q) THEN 1 ELSE x.q[2] IN <<IMINq(q), IMAXq(q), 1, 1>>
RECURSIVE Bounds(_, _)
RECURSIVE CatB(_, _, _)
RECURSIVE UniB(_, _, _)
Bounds(h, d) ==
  LET x == h[d] IN
  CASE x.dk = "uni" -> <<<<x.lo, x.hi, 1, 0>>>>
    [] x.dk = "nor" -> <<NorBounds(x)>>
    [] x.dk = "rou" -> <<<<<<"i", 0>>, <<"i", Len(x.ws)>>, 1, 0>>>>
    [] x.dk = "mul" -> CatB(h, x.ds, 1)
    [] x.dk = "mix" -> UniB(h, x.ds, Len(x.ds))
CatB(h, ds, i) == IF i > Len(ds) THEN <<>> ELSE Bounds(h, ds[i]) \o CatB(h, ds, i + 1)
UniB(h, ds, i) == IF i = 1 THEN Bounds(h, ds[1])
                  ELSE LET a == UniB(h, ds, i - 1)  b == Bounds(h, ds[i]) IN
                       [j \in 1..Len(a) |-> IvUnion(a[j], b[j])]

Over(h, d, ivs) == LET b == Bounds(h, d) IN [i \in 1..Len(b) |-> IF IvSub(b[i], ivs[i]) THEN 0 ELSE 1]

(* ---- support ------------------------------------------------------------ *)
Huge(v) == Abs(v[2]) >= 900000
Multiple(v, base, q) ==
  IF IsZ(q) \/ Huge(v) \/ Huge(base) THEN TRUE
  ELSE LET al == Aligned(v, base)
           df == <<"f", al[1] - al[2], al[3]>>
           a2 == Aligned(df, q) IN a2[1] % Abs(a2[2]) = 0
InNor(x, v) ==
  /\ v[1] = x.dt
  /\ IvIn(NorBounds(x), v)
  /\ (x.sc = 0 /\ x.mu[3] = 0 /\ Abs(x.mu[2]) > 1048000 => IF v[2] = 0 THEN x.q[2] > 800000 ELSE (v[2] > 0 <=> x.mu[2] > 0))   \* many deviations away from zero
  /\ Multiple(v, Num0(x.dt), x.q)
RECURSIVE InComp(_, _, _, _)
RECURSIVE InMul(_, _, _, _, _)
InComp(h, d, i, v) ==
  LET x == h[d] IN
  CASE x.dk = "uni" -> v[1] = x.dt /\ NumLe(x.lo, v) /\ NumLt(v, x.hi) /\ Multiple(v, x.lo, x.q)
    [] x.dk = "nor" -> InNor(x, v)
    [] x.dk = "rou" -> v[1] = "i" /\ v[2] >= 0 /\ v[2] < Len(x.ws) /\ x.ws[v[2] + 1][2] > 0
    [] x.dk = "mix" -> \E j \in 1..Len(x.ds) : x.ws[j][2] > 0 /\ InComp(h, x.ds[j], i, v)
    [] x.dk = "mul" -> InMul(h, x.ds, 1, i, v)
InMul(h, ds, j, i, v) == LET m == Dim(h, ds[j]) IN
                         IF i <= m THEN InComp(h, ds[j], i, v) ELSE InMul(h, ds, j + 1, i - m, v)

(* joint support; <<"?">> marks a component that was not asked for *)
RECURSIVE InDist(_, _, _)
RECURSIVE InMulV(_, _, _, _)
InDist(h, d, vec) ==
  LET x == h[d] IN
  CASE x.dk = "mix" -> \E j \in 1..Len(x.ds) : x.ws[j][2] > 0 /\ InDist(h, x.ds[j], vec)
    [] x.dk = "mul" -> InMulV(h, x.ds, 1, vec)
    [] OTHER -> vec[1] = Unk \/ InComp(h, d, 1, vec[1])
InMulV(h, ds, j, vec) ==
  IF j > Len(ds) THEN TRUE
  ELSE LET m == Dim(h, ds[j]) IN
       InDist(h, ds[j], SubSeq(vec, 1, m)) /\ InMulV(h, ds, j + 1, SubSeq(vec, m + 1, Len(vec)))

(* ---- values of parameters drawn from a distribution ----------------------- *)
InCompParam(h, d, i, p, v) ==
  IF h[p].pk = "num" THEN InDomain(h[p], v) /\ InComp(h, d, i, v)
  ELSE \E j \in 1..Len(h[p].vals) : h[p].vals[j] = v /\ InComp(h, d, i, <<"i", j - 1>>)
(* the numbers a parameter value may come from *)
Pre(h, p, v) == IF h[p].pk = "num" THEN {v}
                ELSE {<<"i", j - 1>> : j \in {k \in 1..Len(h[p].vals) : h[p].vals[k] = v}}
InDistParams(h, d, ps, vec) ==
  /\ \A i \in 1..Len(ps) : InDomain(h[ps[i]], vec[i])
  /\ InDist(h, d, [i \in 1..Len(ps) |-> IF Pre(h, ps[i], vec[i]) = {} THEN <<"n">>
                                        ELSE CHOOSE x \in Pre(h, ps[i], vec[i]) : TRUE])

Ivs(h, ps) == [i \in 1..Len(ps) |-> SamplingInterval(h[ps[i]])]
IsTypeClash(h, d, ps) == \E i \in 1..Len(ps) : DTypes(h, d)[i] # SamplingInterval(h[ps[i]])[1][1]
(* can sampling for these parameters fail, must it, does it almost never ?    *)
Overs(h, d, ps) == \E i \in 1..Len(ps) : Over(h, d, Ivs(h, ps))[i] = 1
Disjoint(h, d, ps) == LET b == Bounds(h, d) IN
  \E i \in 1..Len(ps) : IvEmpty(IvInter(b[i], SamplingInterval(h[ps[i]])))
Likely(h, d, ps) ==
  /\ Len(ps) = 1 /\ h[d].dk = "uni"
  /\ LET x == h[d]  w == IvInter(Bounds(h, d)[1], SamplingInterval(h[ps[1]])) IN
     /\ ~Extreme(x.lo) /\ ~Extreme(x.hi) /\ IsZ(x.q) /\ x.sc = 0
     /\ NumLe(NumSub(x.hi, x.lo), LET s == NumSub(w[2], w[1]) IN <<"f", 3 * s[2], s[3]>>)
PSampleRCs(h, d, ps) ==
  IF IsTypeClash(h, d, ps) THEN {INVALID_TYPE}
  ELSE IF Disjoint(h, d, ps) THEN {SAMPLING_UNSUCCESSFUL}
  ELSE IF ~Overs(h, d, ps) \/ Likely(h, d, ps) THEN {0}
  ELSE {0, SAMPLING_UNSUCCESSFUL}

(* ---- creation ------------------------------------------------------------ *)
BadDist(h, d) == IF d = 0 THEN TRUE ELSE h[d].k # "dist"
MkDistRC(h, o) ==
  CASE o.k = "uni" ->
       IF o.dt \notin {"i", "f"} THEN INVALID_TYPE
       ELSE IF o.sc \notin {0, 1} THEN INVALID_SCALE
       ELSE IF \/ ~NumLt(o.lo, o.hi)
               \/ (o.sc = 1 /\ NumLe(o.lo, Num0(o.dt)))
               \/ NumLt(o.q, Num0(o.dt))
               \/ (~Extreme(o.lo) /\ ~Extreme(o.hi) /\ NumLt(NumSub(o.hi, o.lo), o.q))
       THEN INVALID_VALUE ELSE 0
    [] o.k = "nor" ->
       IF o.dt \notin {"i", "f"} THEN INVALID_TYPE
       ELSE IF o.sc \notin {0, 1} THEN INVALID_SCALE
       ELSE IF NumLt(o.q, Num0(o.dt)) THEN INVALID_VALUE ELSE 0
    [] o.k = "rou" ->
       IF Len(o.ws) = 0 \/ (\E i \in 1..Len(o.ws) : o.ws[i][2] < 0) \/ (\A i \in 1..Len(o.ws) : o.ws[i][2] = 0)
       THEN INVALID_VALUE ELSE 0
    [] o.k = "mul" ->
       IF Len(o.ds) = 0 THEN INVALID_VALUE
       ELSE IF \E i \in 1..Len(o.ds) : BadDist(h, o.ds[i]) THEN INVALID_OBJECT ELSE 0
    [] o.k = "mix" ->
       IF Len(o.ds) = 0 THEN INVALID_VALUE
       ELSE IF BadDist(h, o.ds[1]) THEN INVALID_OBJECT
       ELSE IF \E i \in 1..Len(o.ds) : BadDist(h, o.ds[i]) \/ (IF BadDist(h, o.ds[i]) THEN FALSE
                                         ELSE Dim(h, o.ds[i]) # Dim(h, o.ds[1])) THEN
         LET bad == CHOOSE i \in 1..Len(o.ds) :
               /\ (BadDist(h, o.ds[i]) \/ (IF BadDist(h, o.ds[i]) THEN FALSE ELSE Dim(h, o.ds[i]) # Dim(h, o.ds[1])))
               /\ \A j \in 1..(i - 1) : ~BadDist(h, o.ds[j]) /\ Dim(h, o.ds[j]) = Dim(h, o.ds[1])
         IN IF BadDist(h, o.ds[bad]) THEN INVALID_OBJECT ELSE INVALID_DISTRIBUTION
       ELSE IF (\E i \in 1..Len(o.ws) : o.ws[i][2] < 0) \/ (\A i \in 1..Len(o.ws) : o.ws[i][2] = 0)
       THEN INVALID_VALUE
       ELSE IF \E i \in 1..Len(o.ds) : DTypes(h, o.ds[i]) # DTypes(h, o.ds[1]) THEN INVALID_DISTRIBUTION
       ELSE 0
MkDist(o) ==
  CASE o.k = "uni" -> [k |-> "dist", dk |-> "uni", dt |-> o.dt, lo |-> o.lo, hi |-> o.hi, sc |-> o.sc, q |-> o.q]
    [] o.k = "nor" -> [k |-> "dist", dk |-> "nor", dt |-> o.dt, mu |-> o.mu, sigma |-> o.sigma, sc |-> o.sc, q |-> o.q]
    [] o.k = "rou" -> [k |-> "dist", dk |-> "rou", ws |-> o.ws]
    [] o.k = "mix" -> [k |-> "dist", dk |-> "mix", ds |-> o.ds, ws |-> o.ws]
    [] o.k = "mul" -> [k |-> "dist", dk |-> "mul", ds |-> o.ds]
DefaultDist(p) ==
  IF p.pk = "num" THEN [k |-> "dist", dk |-> "uni", dt |-> p.dt, lo |-> p.lo, hi |-> p.hi, sc |-> 0, q |-> p.q]
  ELSE [k |-> "dist", dk |-> "uni", dt |-> "i", lo |-> <<"i", 0>>, hi |-> <<"i", Len(p.vals)>>, sc |-> 0, q |-> <<"i", 0>>]

DistKind == [uni |-> "uni", nor |-> "nor", rou |-> "rou", mix |-> "mix", mul |-> "mul"]
DistInfo(h, d) ==
  LET x == h[d] IN
  <<x.dk, Dim(h, d), DTypes(h, d), Bounds(h, d),
    CASE x.dk = "uni" -> <<x.lo, x.hi, x.sc, x.q>>
      [] x.dk = "nor" -> <<x.mu, x.sigma, x.sc, x.q>>
      [] x.dk = "rou" -> <<Len(x.ws)>>
      [] x.dk = "mix" -> x.ds
      [] x.dk = "mul" -> x.ds>>
(* weights are reported normalised, here scaled by 4096 *)
WeightsOk(ws, o) ==
  /\ Len(o) = Len(ws)
  /\ LET t == TotW(ws) IN
     \A i \in 1..Len(ws) : Abs(o[i] * t[1] - 4096 * ws[i][2] * 2^(t[2] - ws[i][3])) <= t[1]
=============================================================================
