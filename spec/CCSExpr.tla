------------------------------- MODULE CCSExpr -------------------------------
(* Expressions: [k |-> "expr", t |-> type, n |-> <<node, ...>>]; a node is a   *)
(* literal datum or <<"o", slot>> designating an expression or a parameter.    *)
EXTENDS CCSParam

ETypes == {"or", "and", "eq", "ne", "lt", "gt", "le", "ge", "add", "sub", "mul", "div", "mod",
           "pos", "neg", "not", "in", "list", "lit", "var"}
Arity(t) == CASE t \in {"pos", "neg", "not"} -> 1 [] t = "list" -> -1 [] OTHER -> 2

(* creation; f = 2: the dedicated literal / variable constructors *)
MkExprRC(h, o) ==
  LET lit == {"n", "i", "f", "b", "s", "z"}
      okn(v) == IF v[1] = "o" THEN v[2] # 0 /\ h[v[2]].k \in {"param", "expr"} ELSE v[1] \in lit
  IN
  IF o.t = "lit" /\ o.f = 2 THEN (IF o.n[1][1] \in lit THEN 0 ELSE INVALID_VALUE)
  ELSE IF o.t = "var" /\ o.f = 2 THEN
    (IF o.n[1][1] = "o" /\ o.n[1][2] # 0 /\ h[o.n[1][2]].k = "param" THEN 0 ELSE INVALID_OBJECT)
  ELSE IF o.t \notin ETypes \/ o.t \in {"lit", "var"} THEN INVALID_VALUE
  ELSE IF Arity(o.t) >= 0 /\ Len(o.n) # Arity(o.t) THEN INVALID_VALUE
  ELSE IF \E i \in 1..Len(o.n) : ~okn(o.n[i]) THEN
    LET bad == CHOOSE i \in 1..Len(o.n) : ~okn(o.n[i]) /\ \A j \in 1..(i - 1) : okn(o.n[j]) IN
    IF o.n[bad][1] = "o" /\ o.n[bad][2] = 0 THEN INVALID_OBJECT ELSE INVALID_VALUE
  ELSE 0
MkExpr(o) == [k |-> "expr", t |-> o.t, n |-> [i \in 1..Len(o.n) |-> V(o.n[i])]]

(* the parameter a node is a variable of, 0 if it is none *)
VarOf(h, nd) ==
  IF nd[1] # "o" THEN 0
  ELSE LET x == h[nd[2]] IN
       IF x.k = "param" THEN nd[2] ELSE IF x.t = "var" THEN x.n[1][2] ELSE 0

RECURSIVE Desc(_, _)
Desc(h, nd) ==
  IF nd[1] # "o" THEN <<"lit", nd>>
  ELSE LET x == h[nd[2]] IN
       IF x.k = "param" THEN <<"var", nd[2]>>
       ELSE IF x.t = "lit" THEN <<"lit", x.n[1]>>
       ELSE IF x.t = "var" THEN <<"var", x.n[1][2]>>
       ELSE <<x.t>> \o [i \in 1..Len(x.n) |-> Desc(h, x.n[i])]

RECURSIVE Params(_, _)
Params(h, nd) ==
  IF nd[1] # "o" THEN {}
  ELSE LET x == h[nd[2]] IN
       IF x.k = "param" THEN {nd[2]}
       ELSE UNION {Params(h, x.n[i]) : i \in 1..Len(x.n)}

Ok(v) == <<"ok", v>>
Err(c) == <<"err", c>>
IsErr(r) == r[1] = "err"
IsUnk(r) == r[1] = "unk"
UnkR == <<"unk">>
IsX(r) == r[2][1] = "x"

(* equality test: <<comparable, equal>> *)
EqTest(a, b) ==
  IF a[1] = b[1] THEN <<TRUE, a = b>>
  ELSE IF IsNum(a) /\ IsNum(b) THEN <<TRUE, NumCmp(a, b) = 0>>
  ELSE <<FALSE, FALSE>>

(* may value v be compared to a variable of parameter p ? *)
Comparable(h, p, v) ==
  IF p = 0 THEN TRUE
  ELSE LET q == h[p] IN
       CASE q.pk \in {"ord", "cat"} -> InDomain(q, v)
         [] q.pk \in {"num", "disc"} -> IsNum(v)
         [] OTHER -> TRUE

CmpRes(t, c) == LET r == CASE t = "lt" -> c < 0 [] t = "gt" -> c > 0 [] t = "le" -> c <= 0 [] t = "ge" -> c >= 0
                IN Ok(IF r THEN True ELSE False)
BoolV(b) == IF b THEN True ELSE False

(* env = [ps |-> parameters of the context in order, vals |-> values,          *)
(*        ctx |-> FALSE when no context is given, hv |-> FALSE when no values] *)
RECURSIVE EvalNode(_, _, _)
EvalNode(h, nd, env) ==
  LET
    LookUp(p) ==
      IF ~env.hv THEN Err(INVALID_VALUE)
      ELSE IF ~env.ctx THEN Err(INVALID_OBJECT)
      ELSE IF \E i \in 1..Len(env.ps) : env.ps[i] = p
           THEN Ok(env.vals[CHOOSE i \in 1..Len(env.ps) : env.ps[i] = p])
           ELSE Err(INVALID_PARAMETER)
  IN
  IF nd[1] # "o" THEN Ok(nd)
  ELSE LET x == h[nd[2]] IN
  IF x.k = "param" THEN LookUp(nd[2])
  ELSE IF x.t = "lit" THEN Ok(x.n[1])
  ELSE IF x.t = "var" THEN LookUp(x.n[1][2])
  ELSE IF x.t = "list" THEN Err(UNSUPPORTED_OPERATION)
  ELSE IF x.t = "in" THEN
    LET nr == x.n[2] IN
    IF nr[1] # "o" THEN Err(INVALID_VALUE)
    ELSE LET lx == h[nr[2]] IN
    IF lx.k # "expr" THEN Err(INVALID_VALUE)
    ELSE IF lx.t # "list" THEN Err(INVALID_VALUE)
    ELSE LET l == EvalNode(h, x.n[1], env) IN
    IF IsErr(l) \/ IsUnk(l) THEN l
    ELSE IF IsX(l) THEN Ok(Inactive)
    ELSE LET RECURSIVE Scan(_, _)
             Scan(i, inact) ==
               IF i > Len(lx.n) THEN Ok(IF inact THEN Inactive ELSE False)
               ELSE LET r == EvalNode(h, lx.n[i], env) IN
                    IF IsErr(r) \/ IsUnk(r) THEN r
                    ELSE IF IsX(r) THEN Scan(i + 1, TRUE)
                    ELSE IF ~Comparable(h, VarOf(h, x.n[1]), r[2]) THEN Err(INVALID_VALUE)
                    ELSE IF EqTest(l[2], r[2])[2] THEN Ok(True)
                    ELSE Scan(i + 1, inact)
         IN Scan(1, FALSE)
  ELSE IF Len(x.n) = 1 THEN
    LET a == EvalNode(h, x.n[1], env) IN
    IF IsErr(a) \/ IsUnk(a) THEN a
    ELSE IF IsX(a) THEN Ok(Inactive)
    ELSE CASE x.t = "not" -> IF a[2][1] = "b" THEN Ok(BoolV(a[2][2] = 0)) ELSE Err(INVALID_VALUE)
           [] x.t = "pos" -> IF IsNum(a[2]) THEN a ELSE Err(INVALID_VALUE)
           [] x.t = "neg" -> IF ~IsNum(a[2]) THEN Err(INVALID_VALUE)
                             ELSE IF Extreme(a[2]) THEN UnkR
                             ELSE IF a[2][1] = "i" THEN Ok(<<"i", -a[2][2]>>)
                             ELSE Ok(<<"f", -a[2][2], a[2][3]>>)
  ELSE
    LET a == EvalNode(h, x.n[1], env)
        b == EvalNode(h, x.n[2], env)
        pa == VarOf(h, x.n[1])
        pb == VarOf(h, x.n[2])
    IN
    IF IsErr(a) THEN a ELSE IF IsUnk(a) THEN a
    ELSE IF IsErr(b) \/ IsUnk(b) THEN b
    ELSE CASE
      x.t = "or" ->
        IF a[2][1] \notin {"b", "x"} \/ b[2][1] \notin {"b", "x"} THEN Err(INVALID_VALUE)
        ELSE IF a[2] = True \/ b[2] = True THEN Ok(True)
        ELSE IF IsX(a) \/ IsX(b) THEN Ok(Inactive)
        ELSE Ok(False)
    [] x.t = "and" ->
        IF IsX(a) \/ IsX(b) THEN Ok(Inactive)
        ELSE IF a[2][1] # "b" \/ b[2][1] # "b" THEN Err(INVALID_VALUE)
        ELSE Ok(BoolV(a[2] = True /\ b[2] = True))
    [] x.t \in {"eq", "ne"} ->
        IF IsX(a) \/ IsX(b) THEN Ok(Inactive)
        ELSE IF ~Comparable(h, pa, b[2]) \/ ~Comparable(h, pb, a[2]) THEN Err(INVALID_VALUE)
        ELSE LET e == EqTest(a[2], b[2]) IN
             IF pa = 0 /\ pb = 0 /\ ~e[1] THEN Err(INVALID_VALUE)
             ELSE Ok(BoolV(IF x.t = "eq" THEN e[2] ELSE ~e[2]))
    [] x.t \in {"lt", "gt", "le", "ge"} ->
        IF (IF pa = 0 THEN FALSE ELSE h[pa].pk = "cat") \/ (IF pb = 0 THEN FALSE ELSE h[pb].pk = "cat")
        THEN Err(INVALID_VALUE)
        ELSE IF IsX(a) \/ IsX(b) THEN Ok(Inactive)
        ELSE IF ~Comparable(h, pa, b[2]) \/ ~Comparable(h, pb, a[2]) THEN Err(INVALID_VALUE)
        ELSE IF (IF pa = 0 THEN FALSE ELSE h[pa].pk = "ord") THEN
             (IF InDomain(h[pa], a[2]) THEN CmpRes(x.t, OrdCmp(h[pa], a[2], b[2])) ELSE Err(INVALID_VALUE))
        ELSE IF (IF pb = 0 THEN FALSE ELSE h[pb].pk = "ord") THEN
             (IF InDomain(h[pb], b[2]) THEN CmpRes(x.t, OrdCmp(h[pb], a[2], b[2])) ELSE Err(INVALID_VALUE))
        ELSE IF IsNum(a[2]) /\ IsNum(b[2]) THEN CmpRes(x.t, NumCmp(a[2], b[2]))
        ELSE IF a[2][1] = "s" /\ b[2][1] = "s" THEN
             (IF StrRank(a[2][2]) = 0 \/ StrRank(b[2][2]) = 0 THEN UnkR ELSE CmpRes(x.t, StrCmp(a[2][2], b[2][2])))
        ELSE Err(INVALID_VALUE)
    [] OTHER ->
        IF IsX(a) \/ IsX(b) THEN Ok(Inactive)
        ELSE IF ~IsNum(a[2]) \/ ~IsNum(b[2]) THEN Err(INVALID_VALUE)
        ELSE LET r == Arith(x.t, a[2], b[2]) IN
             IF r[1] = "err" THEN r ELSE IF r = Unk THEN UnkR ELSE Ok(r)
=============================================================================
