----------------------------- MODULE MatchValue -----------------------------
(***************************************************************************)
(* Matches as values (property C19).                                        *)
(*                                                                         *)
(* A match is [ref, hyp, fp, fn]: numbers of the values of its reference     *)
(* and hypothesis event (0: absent) and the two error masses.  The state is  *)
(* a row of match variables and one vector of matches.  Every operation is a *)
(* function of the values in it - nothing is shared between matches.  A      *)
(* match that was moved from has no specified value until it is given one.   *)
(*                                                                         *)
(* An operation is a record [o, i, j, r, h, fp, fn] (unused fields are 0).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ONE == 64      \* error masses in units of 1/64
Match(r, h, fp, fn) == [ref |-> r, hyp |-> h, fp |-> fp, fn |-> fn]
Moved == [ref |-> -1, hyp |-> -1, fp |-> -1, fn |-> -1]
Known(m) == m.ref # -1
Blank == Match(0, 0, 0, 0)
FalsePositive(h) == Match(0, h, ONE, 0)
FalseNegative(r) == Match(r, 0, 0, ONE)

InsertAt(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Rotate(s, k) == SubSeq(s, k, Len(s)) \o SubSeq(s, 1, k - 1)

\* operations on the variables S and on the vector V
Allowed(S, V, c) ==
  LET i == c.i  j == c.j IN
  CASE c.o \in {"default", "err", "fp", "fn", "full"} -> i \in DOMAIN S
    [] c.o \in {"setref", "sethyp", "seterr"} -> i \in DOMAIN S /\ Known(S[i])
    [] c.o \in {"copy", "assign", "move", "chain"} -> i \in DOMAIN S /\ j \in DOMAIN S /\ Known(S[j])
    [] c.o = "aliasref" -> i \in DOMAIN S /\ j \in DOMAIN S /\ Known(S[i]) /\ Known(S[j]) /\ S[j].ref # 0
    [] c.o = "aliashyp" -> i \in DOMAIN S /\ j \in DOMAIN S /\ Known(S[i]) /\ Known(S[j]) /\ S[j].hyp # 0
    [] c.o = "aliaserr" -> i \in DOMAIN S /\ j \in DOMAIN S /\ Known(S[i]) /\ Known(S[j])
    [] c.o = "swap" -> i \in DOMAIN S /\ j \in DOMAIN S /\ Known(S[i]) /\ Known(S[j])
    [] c.o = "push" -> j \in DOMAIN S /\ Known(S[j])
    [] c.o = "pushself" -> j \in DOMAIN V
    [] c.o = "insert" -> i \in 1..(Len(V) + 1) /\ j \in DOMAIN S /\ Known(S[j])
    [] c.o = "insertself" -> i \in 1..(Len(V) + 1) /\ j \in DOMAIN V
    [] c.o = "erase" -> i \in DOMAIN V
    [] c.o \in {"vswap", "vassign"} -> i \in DOMAIN V /\ j \in DOMAIN V
    [] c.o = "load" -> i \in DOMAIN S /\ j \in DOMAIN V
    [] c.o = "store" -> i \in DOMAIN V /\ j \in DOMAIN S /\ Known(S[j])
    [] c.o \in {"vsetref", "vsethyp", "vseterr"} -> i \in DOMAIN V
    [] c.o = "rotate" -> i \in DOMAIN V
    [] c.o = "resize" -> i >= 0
    [] OTHER -> TRUE

NewS(S, V, c) ==
  LET i == c.i  j == c.j IN
  CASE c.o = "default" -> [S EXCEPT ![i] = Blank]
    [] c.o = "err" -> [S EXCEPT ![i] = Match(0, 0, c.fp, c.fn)]
    [] c.o = "fp" -> [S EXCEPT ![i] = FalsePositive(c.h)]
    [] c.o = "fn" -> [S EXCEPT ![i] = FalseNegative(c.r)]
    [] c.o = "full" -> [S EXCEPT ![i] = Match(c.r, c.h, c.fp, c.fn)]
    [] c.o = "setref" -> [S EXCEPT ![i].ref = c.r]
    [] c.o = "sethyp" -> [S EXCEPT ![i].hyp = c.h]
    [] c.o = "seterr" -> [S EXCEPT ![i].fp = c.fp, ![i].fn = c.fn]
    [] c.o \in {"copy", "assign", "chain"} -> [S EXCEPT ![i] = S[j]]
    [] c.o = "move" -> IF i = j THEN S ELSE [S EXCEPT ![i] = S[j], ![j] = Moved]
    [] c.o = "aliasref" -> [S EXCEPT ![i].ref = S[j].ref]
    [] c.o = "aliashyp" -> [S EXCEPT ![i].hyp = S[j].hyp]
    [] c.o = "aliaserr" -> [S EXCEPT ![i].fp = S[j].fp, ![i].fn = S[j].fn]
    [] c.o = "swap" -> [S EXCEPT ![i] = S[j], ![j] = S[i]]
    [] c.o = "load" -> [S EXCEPT ![i] = V[j]]
    [] OTHER -> S

NewV(S, V, c) ==
  LET i == c.i  j == c.j IN
  CASE c.o = "push" -> Append(V, S[j])
    [] c.o = "pushself" -> Append(V, V[j])
    [] c.o = "emplace" -> Append(V, Match(c.r, c.h, c.fp, c.fn))
    [] c.o = "insert" -> InsertAt(V, i, S[j])
    [] c.o = "insertself" -> InsertAt(V, i, V[j])
    [] c.o = "erase" -> DropAt(V, i)
    [] c.o = "vswap" -> [V EXCEPT ![i] = V[j], ![j] = V[i]]
    [] c.o = "vassign" -> [V EXCEPT ![i] = V[j]]
    [] c.o = "store" -> [V EXCEPT ![i] = S[j]]
    [] c.o = "vsetref" -> [V EXCEPT ![i].ref = c.r]
    [] c.o = "vsethyp" -> [V EXCEPT ![i].hyp = c.h]
    [] c.o = "vseterr" -> [V EXCEPT ![i].fp = c.fp, ![i].fn = c.fn]
    [] c.o = "rotate" -> Rotate(V, i)
    [] c.o = "reverse" -> Rev(V)
    [] c.o = "resize" -> [k \in 1..i |-> IF k <= Len(V) THEN V[k] ELSE Blank]
    [] c.o = "clear" -> <<>>
    [] OTHER -> V          \* realloc, vcopy (vector := copy of itself), vself

\* what can be seen: every known value and all comparisons of known values
Cells(S, V) == S \o V
Same(a, b) == a.ref = b.ref /\ a.hyp = b.hyp /\ a.fp = b.fp /\ a.fn = b.fn

---------------------------------------------------------------------------
CONSTANTS N, Refs, Hyps, Masses, MaxV, Names     \* Names: the operations considered
VARIABLES S, V, last
vars == <<S, V, last>>
Op(o, i, j, r, h, fp, fn) == [o |-> o, i |-> i, j |-> j, r |-> r, h |-> h, fp |-> fp, fn |-> fn]
Slots == 1..N
Ops ==
  {Op(o, i, 0, 0, 0, 0, 0) : o \in {"default"}, i \in Slots}
  \cup {Op("fp", i, 0, 0, h, 0, 0) : i \in Slots, h \in Hyps}
  \cup {Op("fn", i, 0, r, 0, 0, 0) : i \in Slots, r \in Refs}
  \cup {Op("full", i, 0, r, h, m, ONE - m) : i \in Slots, r \in Refs, h \in Hyps, m \in Masses}
  \cup {Op(o, i, j, 0, 0, 0, 0) : o \in {"copy", "assign", "move", "swap", "aliasref", "aliashyp", "aliaserr"}, i \in Slots, j \in Slots}
  \cup {Op("setref", i, 0, r, 0, 0, 0) : i \in Slots, r \in Refs}
  \cup {Op("sethyp", i, 0, 0, h, 0, 0) : i \in Slots, h \in Hyps}
  \cup {Op(o, i, 0, 0, 0, m, ONE - m) : o \in {"seterr", "err"}, i \in Slots, m \in Masses}
  \cup {Op(o, 0, j, 0, 0, 0, 0) : o \in {"push", "pushself"}, j \in 1..MaxV}
  \cup {Op(o, i, j, 0, 0, 0, 0) : o \in {"insert", "insertself", "vswap", "vassign", "store", "load"}, i \in 1..MaxV, j \in 1..MaxV}
  \cup {Op(o, i, 0, 0, 0, 0, 0) : o \in {"erase", "rotate"}, i \in 1..MaxV}
  \cup {Op("vsetref", i, 0, r, 0, 0, 0) : i \in 1..MaxV, r \in Refs}
  \cup {Op(o, 0, 0, 0, 0, 0, 0) : o \in {"realloc", "reverse", "vself"}}
Start == [i \in Slots |-> IF i = 1 THEN Match(CHOOSE r \in Refs : TRUE, CHOOSE h \in Hyps : TRUE, 0, 0) ELSE Blank]
VInit == S = Start /\ V = <<>> /\ last = Op("start", 0, 0, 0, 0, 0, 0)
VNext == \E c \in {d \in Ops : d.o \in Names} :
  /\ Allowed(S, V, c)
  /\ S' = NewS(S, V, c) /\ V' = NewV(S, V, c) /\ last' = c
  /\ Len(V') <= MaxV
VSpec == VInit /\ [][VNext]_vars

View == <<S, V>>
\* an operation touches only what it names
Written(c) == CASE c.o \in {"swap", "move"} -> {c.i, c.j}
                [] c.o \in {"default", "err", "fp", "fn", "full", "setref", "sethyp", "seterr", "copy", "assign", "chain",
                            "aliasref", "aliashyp", "aliaserr", "load"} -> {c.i}
                [] OTHER -> {}
Independent == [][/\ \A k \in Slots : k \notin Written(last') => S'[k] = S[k]
                  /\ (last'.o \in {"copy", "assign"} => S'[last'.i] = S[last'.j])
                  /\ (last'.o \in {"assign", "move", "swap"} /\ last'.i = last'.j => S' = S)
                  /\ (last'.o \in {"realloc", "vself"} => V' = V)]_vars
\* the vector holds only specified values
VectorKnown == \A k \in DOMAIN V : Known(V[k])
Equality == \A a, b \in {Cells(S, V)[k] : k \in DOMAIN Cells(S, V)} : Same(a, b) <=> a = b
=============================================================================
