----------------------------- MODULE FastLookup -----------------------------
(* HiveTrace evaluates a lookup with a remembered decoding of the list        *)
(* (FastLookupIn); this is the same set of admissible results as LookupIn,    *)
(* for every lookup of a recorded trace.                                      *)
EXTENDS HiveTrace

ListAsked ==
  IF l > Len(Trace) \/ Trace[l].e # "op" THEN None
  ELSE IF Ev.o # "subkey" \/ mode = "free" THEN None
  ELSE IF ~Known(Ev.o, Args) THEN None
  ELSE SubkeysList(H, Cellof(keys[Args[1]]))

SameLookup == ListAsked.t = "ok" => LookupIn(H, ListAsked.v, Args[2]) = FastLookupIn(H, ListAsked.v, Args[2])
=============================================================================
