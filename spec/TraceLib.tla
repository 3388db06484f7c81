------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Scaffolding of the trace specifications.  The file named by the         *)
(* environment variable TRACE holds one recorded execution per line (JSON).*)
(* A trace specification walks over the records; a record that is not a    *)
(* behaviour of the specification is reported by REJECT and skipped.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Register 1 counts the records that were consumed.                       *)
Consumed(n) == TLCSet(1, n)
Reject(l, why) == PrintT("REJECT " \o ToString(l) \o " " \o ToString(why))

TraceDone == PrintT("TRACE-CONSUMED " \o ToString(TLCGet(1)))

(* Has(r, f): does the record r have the field f?                          *)
Has(r, f) == f \in DOMAIN r
=============================================================================
