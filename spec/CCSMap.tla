-------------------------------- MODULE CCSMap --------------------------------
(* Maps [k |-> "map", es |-> <<<<key, value>>, ...>>] and operations on        *)
(* intervals.                                                                 *)
EXTENDS CCSBind

(* an object is the same key whether the map owns it or not *)
Key(v) == IF v[1] = "oid" THEN <<"o", v[2]>> ELSE v
SameKey(a, b) == Key(a) = Key(b)
EntriesAt(m, k) == {i \in 1..Len(m.es) : SameKey(m.es[i][1], k)}
At(m, k) == CHOOSE i \in EntriesAt(m, k) : TRUE
Without(m, k) == SelectSeq(m.es, LAMBDA e : ~SameKey(e[1], k))
MapSet(m, k, v) ==
  IF EntriesAt(m, k) # {} /\ (IF EntriesAt(m, k) = {} THEN FALSE ELSE SameKey(m.es[At(m, k)][2], v)) THEN m
  ELSE [m EXCEPT !.es = Append(Without(m, k), <<k, v>>)]
MapKids(x) == UNION {{x.es[i][j][2] : j \in {q \in 1..2 : x.es[i][q][1] = "o"}} : i \in 1..Len(x.es)}

MapOps == {"mset", "mget", "mexist", "mdel", "mclear", "mcap"}
(* <<rc, output, map>> *)
MapExec(m, o) ==
  CASE o.a = "mset" -> <<0, 0, MapSet(m, o.k, o.v)>>
    [] o.a = "mget" -> <<0, IF EntriesAt(m, o.k) = {} THEN None ELSE Key(m.es[At(m, o.k)][2]), m>>
    [] o.a = "mexist" -> <<0, IF EntriesAt(m, o.k) = {} THEN 0 ELSE 1, m>>
    [] o.a = "mdel" -> IF EntriesAt(m, o.k) = {} THEN <<INVALID_VALUE, 0, m>>
                       ELSE <<0, 0, [m EXCEPT !.es = Without(m, o.k)]>>
    [] o.a = "mclear" -> <<0, 0, [m EXCEPT !.es = <<>>]>>
    [] o.a = "mcap" -> IF o.n < Len(m.es) THEN <<INVALID_VALUE, 0, m>>
                       ELSE <<0, <<Len(m.es), o.n - Len(m.es)>>, m>>
(* a dump <<count, keys, values, keys of pairs, values of pairs>>, in any order *)
GoodDump(m, o) ==
  LET n == Len(m.es) IN
  /\ o[1] = n /\ Len(o[2]) = n /\ Len(o[3]) = n /\ Len(o[4]) = n /\ Len(o[5]) = n
  /\ o[2] = o[4] /\ o[3] = o[5]
  /\ {<<o[4][i], o[5][i]>> : i \in 1..n} = {<<Key(m.es[i][1]), Key(m.es[i][2])>> : i \in 1..n}

(* ---- intervals ------------------------------------------------------------ *)
IvOps == {"ivempty", "ivin", "ivinter", "ivunion", "iveq"}
ExIv(ev) ==
  LET bit(b) == IF b THEN 1 ELSE 0
      clash == ev.x[1][1] # ev.y[1][1] IN
  CASE ev.a = "ivempty" -> LET e == bit(IvEmpty(ev.x)) IN <<ev.rc = 0 /\ ev.o = e, e>>
    [] ev.a = "ivin" -> LET e == [i \in 1..Len(ev.vs) |-> bit(IvIn(ev.x, ev.vs[i]))] IN <<ev.rc = 0 /\ ev.o = e, e>>
    [] clash -> <<ev.rc = INVALID_TYPE, INVALID_TYPE>>
    [] ev.a = "ivinter" -> LET e == IvInter(ev.x, ev.y) IN <<ev.rc = 0 /\ IvSame(ev.o, e), e>>
    [] ev.a = "ivunion" -> LET e == IvUnion(ev.x, ev.y) IN <<ev.rc = 0 /\ IvSame(ev.o, e), e>>
    [] ev.a = "iveq" -> LET e == bit(IvSame(ev.x, ev.y)) IN <<ev.rc = 0 /\ ev.o = e, e>>
=============================================================================
