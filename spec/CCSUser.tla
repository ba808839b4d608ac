-------------------------------- MODULE CCSUser --------------------------------
(* Tuners the user implements.  The record of a tuner has                       *)
(*   usr: -1 for a tuner of the library, otherwise which optional callbacks are  *)
(*        there (1: suggest, 2: save the state, 4: load it)                      *)
(*   dat: the data pointer the user gave,   st: the state the user keeps         *)
(* The user's implementation here: tell appends to the history, the last          *)
(* evaluation told is the optimum, asking and suggesting give what the operation  *)
(* says (give), and a callback answers urc when it is not 0.                      *)
EXTENDS CCSSerial

Bit(v, b) == (v \div b) % 2 = 1
IsUser(x) == IsTuner(x.k) /\ (IF IsTuner(x.k) THEN x.usr # -1 ELSE FALSE)
MkUserRC(h, o) == IF MkTunerRC(h, o) # 0 THEN MkTunerRC(h, o) ELSE IF "bad" \in DOMAIN o THEN INVALID_VALUE ELSE 0
MkUser(o) == [MkTuner(o) EXCEPT !.usr = o.v, !.dat = o.dat]
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
Get(o, f, d) == IF f \in DOMAIN o THEN o[f] ELSE d

(* <<errors before the callback, callback and its arguments, errors of the callback, output>> *)
UserCall(h, o) ==
  LET x == h[o.s]
      f == Get(o, "f", 0)
      fx == IF x.k = "ftuner" THEN <<f>> ELSE <<>>
      ferr == IF x.k = "ftuner" THEN {FeatRC(h, x, f)} \ {0} ELSE {}
      arr == IF o.n > 0 THEN Get(o, "arr", 1) ELSE 0
      aerr == IF (o.n > 0 /\ arr = 0) \/ (arr = 0 /\ o.ret = 0) THEN {INVALID_VALUE} ELSE {}
      urc == {Get(o, "urc", 0)} \ {0}
      l == IF o.w = "opt" THEN x.opt ELSE x.hist
  IN CASE o.a = "uask" -> <<ferr \cup aerr, <<"ask", x.dat>> \o fx \o <<o.n, arr, o.ret>>, urc,
                            <<[i \in 1..o.n |-> o.give[i]], IF o.ret = 1 THEN o.cnt ELSE -1>>>>
       [] o.a = "utell" -> <<{}, <<"tell", x.dat, o.es>>, urc, 0>>
       [] o.a = "ulist" -> <<aerr, <<o.w, x.dat>> \o fx \o <<o.n, arr, o.ret>>,
                             IF urc # {} THEN urc ELSE IF arr = 1 /\ o.n < Len(l) THEN {INVALID_VALUE} ELSE {},
                             <<[i \in 1..o.n |-> IF i <= Len(l) THEN l[i] ELSE 0], IF o.ret = 1 THEN Len(l) ELSE -1>>>>
       [] o.a = "usug" -> <<ferr \cup (IF Bit(x.usr, 1) THEN {} ELSE {UNSUPPORTED_OPERATION}), <<"suggest", x.dat>> \o fx, urc,
                            o.give[1]>>
UserOps == {"uask", "utell", "ulist", "usug"}

(* the callbacks by which what was read is handed to the user: original x, read at node nd,
   with the callbacks v *)
Handed(h, o, nd, new, v, dat) ==
  LET x == h[o]
      sp(s) == IF s.dyn = 0 \/ ~Bit(v, 4) THEN <<>> ELSE <<<<"tload", IF s.dyn = 3 THEN s.st ELSE 0>>>> IN
  IF x.k = "tspace" THEN sp(x)
  ELSE IF ~IsTuner(x.k) THEN <<>>
  ELSE IF x.usr = -1 THEN (IF x.k = "ttuner" THEN sp(h[x.cs]) ELSE <<>>)
  ELSE LET c == new[nd[1]] IN
       IF Bit(v, 4) THEN <<<<"load", dat, c.hist, c.opt, c.st>>>> ELSE <<<<"tell", dat, c.hist>>>>
(* the copy, as the user's callbacks leave it *)
Loaded(h, o, nd, new, v, dat) ==
  LET x == h[o] IN
  IF ~IsUser(x) THEN
    [c \in DOMAIN new |-> LET y == new[c] IN
       IF y.k # "tspace" THEN y ELSE IF y.dyn \in {0, 2} THEN y
       ELSE IF Bit(v, 4) THEN [y EXCEPT !.dyn = 3, !.st = IF y.dyn = 3 THEN y.st ELSE 0] ELSE [y EXCEPT !.dyn = 1, !.st = 0]]
  ELSE [new EXCEPT ![nd[1]] = [@ EXCEPT !.usr = v, !.dat = dat,
          !.st = IF Bit(v, 4) /\ Bit(x.usr, 2) THEN x.st ELSE 0,
          !.opt = IF Bit(v, 4) THEN new[nd[1]].opt ELSE LastOf(new[nd[1]].hist)]]
=============================================================================
