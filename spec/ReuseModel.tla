----------------------------- MODULE ReuseModel -----------------------------
(***************************************************************************)
(* Small histories of files for the reader machine of ReaderSpec.           *)
(***************************************************************************)
EXTENDS ReaderSpec

FilesTried == {<<>>, <<97, 32, 98>>, <<97, 32, 98, 10, 99, 32, 100, 10>>, <<10, 35, 97, 10, 97, 32, 98, 32, 99>>,
               <<97, 10>>, <<97, 32, 98, 10, 97, 10, 99, 32, 100>>, <<35>>, <<13, 10, 97, 9, 98, 13, 10>>}
Histories == UNION {[1..k -> FilesTried] : k \in 0..3}
=============================================================================
