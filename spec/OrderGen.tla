------------------------------ MODULE OrderGen ------------------------------
(***************************************************************************)
(* Values that differ in one or two attributes: the order is total and      *)
(* transitive on them, and the six outcomes of every pair are printed.      *)
(***************************************************************************)
EXTENDS Orders, Json
CONSTANTS Shape, Show, Slow      \* Slow: also transitivity

Dom(c) == CASE c = "s" -> {<<"t", <<97>>>>, <<"t", <<98>>>>, <<"t", <<97, 98>>>>, <<"t", <<>>>>, <<"t", <<233>>>>}
            [] c = "n" -> {<<"n", 0>>, <<"n", 1>>, <<"n", 10>>}
            [] c = "m" -> {<<"n", -1>>, <<"n", 2>>}
            [] c = "b" -> {<<"t", <<97>>>>, <<"t", <<98>>>>}
Box == <<"m", "m", "m", "m">>
Sh == CASE Shape = "box" -> <<"n", "n", "m", "m">>
        [] Shape = "dbox" -> <<"s">> \o Box
        [] Shape = "event" -> <<"b", "b">> \o Box
        [] Shape = "scored" -> <<"n", "b", "b", "m", "m", "m", "m">>
        [] Shape = "lab" -> <<"s", "s">>
        [] Shape = "slab" -> <<"n", "s", "b">>
        [] Shape = "ilab" -> <<"n", "n">>
        [] Shape = "silab" -> <<"n", "n", "m">>
VARIABLES a, b
Vals == {v \in [1..Len(Sh) -> UNION {Dom(Sh[i]) : i \in 1..Len(Sh)}] : \A i \in 1..Len(Sh) : v[i] \in Dom(Sh[i])}
\* built attribute by attribute
Init == a = <<>> /\ b = <<>>
Next == /\ Len(a) < Len(Sh)
        /\ \E u, v \in Dom(Sh[Len(a) + 1]) :
             /\ a' = Append(a, u) /\ b' = Append(b, v)
Spec == Init /\ [][Next]_<<a, b>>
Full == Len(a) = Len(Sh)
Laws ==
  /\ Cardinality({<<"<", Before(a, b)>>, <<">", Before(b, a)>>, <<"=", a = b>>} \cap {<<"<", TRUE>>, <<">", TRUE>>, <<"=", TRUE>>}) = 1
  /\ Slow => \A i \in 1..Len(a) : \A x \in Dom(Sh[i]) :        \* transitivity, third value one attribute away
        LET c == [b EXCEPT ![i] = x] IN Before(a, b) /\ Before(b, c) => Before(a, c)
Emit == Show /\ Full => PrintT("GEN " \o ToJson([a |-> a, b |-> b, six |-> Six(a, b)]))
=============================================================================
