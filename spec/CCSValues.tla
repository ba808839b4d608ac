------------------------------ MODULE CCSValues ------------------------------
(* Datums, result codes and exact arithmetic.                                 *)
(* A datum is a tuple whose first element is its type:                         *)
(*   <<"n">> none   <<"i", v>> integer   <<"f", n, k>> the number n / 2^k      *)
(*   <<"b", 0|1>> boolean   <<"s", str>> string   <<"x">> inactive             *)
(*   <<"o", slot>> object (owned)  <<"oid", slot>> object (identity only)      *)
(*   <<"z">> minus zero (a float)  <<"nan">> not a number                      *)
(* Integers near 1000010 and floats of magnitude 2^21 stand for the extreme    *)
(* 64 bit integers and the infinities (order preserving embedding).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SUCCESS == 0
AGAIN == 1
INVALID_OBJECT == -1
INVALID_VALUE == -2
INVALID_TYPE == -3
INVALID_SCALE == -4
INVALID_DISTRIBUTION == -5
INVALID_EXPRESSION == -6
INVALID_PARAMETER == -7
INVALID_CONFIGURATION == -8
INVALID_NAME == -9
INVALID_CONDITION == -10
INVALID_TUNER == -11
INVALID_GRAPH == -12
INVALID_BOUNDS == -14
OUT_OF_BOUNDS == -15
SAMPLING_UNSUCCESSFUL == -16
OUT_OF_MEMORY == -17
UNSUPPORTED_OPERATION == -18
INVALID_EVALUATION == -19
INVALID_FEATURES == -20
INVALID_FEATURES_TUNER == -21
NOT_ENOUGH_DATA == -23
DUPLICATE_HANDLE == -24
INVALID_HANDLE == -25
SYSTEM == -26
EXTERNAL == -27
INVALID_TREE == -28
INVALID_TREE_SPACE == -29
INVALID_TREE_TUNER == -30
ANYRC == 99  \* a result outside the modelled arithmetic

None == <<"n">>
Inactive == <<"x">>
True == <<"b", 1>>
False == <<"b", 0>>
Zero == <<"f", 0, 0>>

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Range(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Reduce(_, _)
Reduce(n, k) == IF k > 0 /\ n % 2 = 0 THEN Reduce(n \div 2, k - 1) ELSE <<n, k>>
MkF(n, k) == LET r == Reduce(n, k) IN <<"f", r[1], r[2]>>

V(v) == IF v[1] = "z" THEN Zero ELSE v
IsNum(v) == v[1] \in {"i", "f"}
NK(v) == IF v[1] = "i" THEN 0 ELSE v[3]

(* comparison of two numbers, int or float *)
NumCmp(a, b) ==
  IF NK(a) = NK(b) THEN Sgn(a[2] - b[2])
  ELSE IF NK(a) > NK(b) THEN Sgn(a[2] - b[2] * 2^(NK(a) - NK(b)))
  ELSE Sgn(a[2] * 2^(NK(b) - NK(a)) - b[2])
NumLt(a, b) == NumCmp(a, b) < 0
NumLe(a, b) == NumCmp(a, b) <= 0

(* the strings used by the generators, in strcmp order *)
Strs == <<"", "A", "a", "aa", "ab", "b", "bar", "c", "d", "e", "foo", "foo2", "x", "y", "z">>
StrRank(s) == IF \E i \in 1..Len(Strs) : Strs[i] = s
              THEN CHOOSE i \in 1..Len(Strs) : Strs[i] = s ELSE 0
StrCmp(a, b) == Sgn(StrRank(a) - StrRank(b))

(* exact arithmetic; "?" stands for a result the model does not determine      *)
Unk == <<"?">>
Small(a) == Abs(a[2]) < 16384
Aligned(a, b) == LET K == Max2(NK(a), NK(b)) IN
  <<a[2] * 2^(K - NK(a)), b[2] * 2^(K - NK(b)), K>>
CDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
CMod(a, b) == a - b * CDiv(a, b)
IntMin == <<"i", -1000010>>
Arith(op, a, b) ==
  IF op = "div" /\ a = IntMin /\ b = <<"i", -1>> THEN <<"err", INVALID_VALUE>>
  ELSE IF op = "mod" /\ a[1] = "i" /\ b \in {<<"i", 1>>, <<"i", -1>>} THEN <<"i", 0>>
  ELSE IF op = "div" /\ a[1] = "i" /\ b = <<"i", 1>> THEN a
  ELSE IF ~Small(a) \/ ~Small(b) \/ NK(a) > 8 \/ NK(b) > 8 THEN Unk
  ELSE IF op \in {"div", "mod"} /\ b[2] = 0 THEN <<"err", INVALID_VALUE>>
  ELSE IF a[1] = "i" /\ b[1] = "i" THEN
    <<"i", CASE op = "add" -> a[2] + b[2]
             [] op = "sub" -> a[2] - b[2]
             [] op = "mul" -> a[2] * b[2]
             [] op = "div" -> CDiv(a[2], b[2])
             [] op = "mod" -> CMod(a[2], b[2])>>
  ELSE LET al == Aligned(a, b) IN
    CASE op = "add" -> MkF(al[1] + al[2], al[3])
      [] op = "sub" -> MkF(al[1] - al[2], al[3])
      [] op = "mul" -> IF NK(a) + NK(b) > 8 THEN Unk ELSE MkF(a[2] * b[2], NK(a) + NK(b))
      [] op = "mod" -> MkF(CMod(al[1], al[2]), al[3])
      [] op = "div" -> IF Abs(al[1]) > 2^20 THEN Unk
                       ELSE IF CMod(al[1] * 256, al[2]) = 0 THEN MkF(CDiv(al[1] * 256, al[2]), 8)
                       ELSE Unk
=============================================================================
