--------------------------- MODULE MapperHandles ----------------------------
(***************************************************************************)
(* Label mappers, event mappers and scored-event mappers over any number of *)
(* mappings (property C14).                                                 *)
(*   maps  what each mapping knows (see MapperSpec)                         *)
(*   lab   label mapper  -> its mapping (0: the mapper was destroyed)       *)
(*   ev    event mapper  -> the label mapper it works with                  *)
(*   sc    scored mapper -> the event mapper it works with                  *)
(*   kept  event mappers made with a label mapper of their own ("evn"),      *)
(*         which others may use as well                                      *)
(* A copy of a label mapper shares the mapping, an assignment makes its     *)
(* target share the mapping of its source, and a mapping is there as long   *)
(* as a mapper uses it.  Event and scored mappers refer to mappers of their *)
(* user, who keeps those.                                                   *)
(***************************************************************************)
EXTENDS MapperSpec

NoHandles == [lab |-> <<1>>, ev |-> <<>>, sc |-> <<>>, kept |-> {}]

\* the effect of an operation other than a lookup on the handles; m: number of mappings so far
Made(h, m, op, a) ==
  CASE op = "new"  -> [h EXCEPT !.lab = Append(@, m + 1)]
    [] op = "copy" -> [h EXCEPT !.lab = Append(@, h.lab[a[1]])]
    [] op = "set"  -> [h EXCEPT !.lab[a[1]] = h.lab[a[2]]]
    [] op = "drop" -> [h EXCEPT !.lab[a[1]] = 0]
    [] op = "evn"  -> [h EXCEPT !.lab = Append(@, m + 1), !.ev = Append(@, Len(h.lab) + 1), !.kept = @ \cup {Len(h.ev) + 1}]
    [] op = "ev"   -> [h EXCEPT !.ev = Append(@, a[1])]
    [] op = "cev"  -> [h EXCEPT !.ev = Append(@, h.ev[a[1]])]
    [] op = "gev"  -> [h EXCEPT !.ev = Append(@, h.ev[a[1]])]
    [] op = "eset" -> [h EXCEPT !.ev[a[1]] = h.ev[a[2]]]
    [] op = "sc"   -> [h EXCEPT !.sc = Append(@, a[1])]
    [] op = "csc"  -> [h EXCEPT !.sc = Append(@, h.sc[a[1]])]
    [] op = "sset" -> [h EXCEPT !.sc[a[1]] = h.sc[a[2]]]
Brings(op) == op \in {"new", "evn"}      \* a mapping

MappingOf(h, op, k) ==
  CASE op = "l" -> h.lab[k]
    [] op = "e" -> h.lab[h.ev[k]]
    [] op = "x" -> h.lab[h.ev[h.sc[k]]]

Live(h) == {k \in 1..Len(h.lab) : h.lab[k] # 0}
InUse(h) == {h.ev[k] : k \in 1..Len(h.ev)}
\* what may be done: nothing with a destroyed mapper, and nobody destroys one that is worked with
May(h, op, a) ==
  CASE op \in {"new", "evn"} -> TRUE
    [] op = "copy" -> a[1] \in Live(h)
    [] op = "set"  -> a[1] \in Live(h) /\ a[2] \in Live(h)
    [] op = "drop" -> a[1] \in Live(h) \ InUse(h)
    [] op = "ev"   -> a[1] \in Live(h)
    [] op \in {"cev", "gev", "sc"} -> a[1] \in 1..Len(h.ev)
    [] op = "eset" -> a[1] \in 1..Len(h.ev) \ h.kept /\ a[2] \in 1..Len(h.ev)
    [] op = "csc"  -> a[1] \in 1..Len(h.sc)
    [] op = "sset" -> a[1] \in 1..Len(h.sc) /\ a[2] \in 1..Len(h.sc)

---------------------------------------------------------------------------
CONSTANTS MaxLab, MaxEv, MaxSc, MaxMaps
VARIABLES hs, maps
\* (known of MapperSpec is not used here)
hvars == <<hs, maps, known, last>>
HInit == hs = NoHandles /\ maps = <<<<>>>> /\ known = <<>> /\ last = [op |-> "", k |-> 0, asked |-> <<>>, ok |-> TRUE, nums |-> <<>>]
Make(op, a) ==
  /\ May(hs, op, a)
  /\ hs' = Made(hs, Len(maps), op, a)
  /\ Len(hs'.lab) <= MaxLab /\ Len(hs'.ev) <= MaxEv /\ Len(hs'.sc) <= MaxSc
  /\ maps' = IF Brings(op) THEN Append(maps, <<>>) ELSE maps
  /\ Len(maps') <= MaxMaps
  /\ last' = [op |-> op, k |-> 0, asked |-> a, ok |-> TRUE, nums |-> <<>>]
  /\ UNCHANGED known
LookUp(op, k, asked, outs) ==
  \E o \in outs :
    /\ maps' = [maps EXCEPT ![MappingOf(hs, op, k)] = o.known]
    /\ last' = [op |-> op, k |-> k, asked |-> asked, ok |-> o.ok, nums |-> o.nums]
    /\ UNCHANGED <<hs, known>>
Maker(Do2(_, _)) ==
  \/ Do2("new", <<>>) \/ Do2("evn", <<>>)
  \/ \E h \in 1..Len(hs.lab) : \E op \in {"copy", "drop", "ev"} : Do2(op, <<h>>)
  \/ \E h, g \in 1..Len(hs.lab) : Do2("set", <<h, g>>)
  \/ \E e \in 1..Len(hs.ev) : \E op \in {"cev", "gev", "sc"} : Do2(op, <<e>>)
  \/ \E e, f \in 1..Len(hs.ev) : Do2("eset", <<e, f>>)
  \/ \E s \in 1..Len(hs.sc) : Do2("csc", <<s>>)
  \/ \E s, t \in 1..Len(hs.sc) : Do2("sset", <<s, t>>)
Looker(Do4(_, _, _, _)) ==
  \/ \E h \in Live(hs), x \in Labels : Do4("l", h, <<x>>, LabelOutcomes(maps[MappingOf(hs, "l", h)], x, Cap))
  \/ \E e \in 1..Len(hs.ev), q, d \in Labels : Do4("e", e, <<q, d>>, EventOutcomes(maps[MappingOf(hs, "e", e)], q, d, Cap))
  \/ \E s \in 1..Len(hs.sc), q, d \in Labels : Do4("x", s, <<q, d>>, EventOutcomes(maps[MappingOf(hs, "x", s)], q, d, Cap))
HNext == Maker(Make) \/ Looker(LookUp)
HSpec == HInit /\ [][HNext]_hvars

HInjective == \A m \in 1..Len(maps) : \A i, j \in 1..Len(maps[m]) : maps[m][i] = maps[m][j] => i = j
HDense == \A m \in 1..Len(maps) : Len(maps[m]) <= Cap
\* the mappers that are worked with are there
Whole == \A k \in 1..Len(hs.ev) : hs.lab[hs.ev[k]] # 0
HAnswered ==
  last.op \in {"l", "e", "x"} =>
    LET k == maps[MappingOf(hs, last.op, last.k)] IN
    IF last.ok THEN Len(last.nums) = Len(last.asked) /\ \A i \in 1..Len(last.asked) : k[last.nums[i] + 1] = last.asked[i]
    ELSE Len(k) = Cap /\ \E i \in 1..Len(last.asked) : Index(k, last.asked[i]) = 0
\* no mapping forgets or renumbers, and a step changes one mapping at most
HStable == [][/\ \A m \in 1..Len(maps) : \A i \in 1..Len(maps[m]) : i <= Len(maps'[m]) /\ maps'[m][i] = maps[m][i]
              /\ Cardinality({m \in 1..Len(maps) : maps'[m] # maps[m]}) <= 1]_hvars
\* making, sharing and destroying mappers changes no mapping
Quiet == [][hs' # hs => \A m \in 1..Len(maps) : maps'[m] = maps[m]]_hvars
=============================================================================
