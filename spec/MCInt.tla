-------------------------------- MODULE MCInt --------------------------------
(* Integers (C09): the order in which the reader checks data, size and type - *)
(* against "exactly when all hold, and an error names one that fails".        *)
EXTENDS Integers, FiniteSets, TLC, Json

CONSTANTS MaxType, MaxSize

VARIABLES ty, n, inline, room, want, res
vars == <<ty, n, inline, room, want, res>>

Init == /\ ty \in 0..MaxType /\ n \in 0..MaxSize /\ inline \in BOOLEAN /\ room \in {"gone", "short", "enough"}
        /\ want \in {4, 8} /\ res = "?"
        /\ inline => room = "enough"
Types == IF want = 4 THEN {4, 5} ELSE {11}

Decode ==
  /\ res = "?"
  /\ res' = IF inline /\ n > 4 THEN "inline"
            ELSE IF ~inline /\ room # "enough" THEN "cell"
            ELSE IF n # want THEN "size"
            ELSE IF ty > 11 THEN "unknown"
            ELSE IF ty \notin Types THEN "type"
            ELSE "ok"
  /\ UNCHANGED <<ty, n, inline, room, want>>
Next == Decode
Spec == Init /\ [][Next]_vars

(* -------------------------------- contract -------------------------------- *)
Fails == (IF inline /\ n > 4 THEN {"inline"} ELSE {}) \cup (IF ~inline /\ room # "enough" THEN {"cell"} ELSE {})
         \cup (IF n # want THEN {"size"} ELSE {}) \cup (IF ty > 11 THEN {"unknown"} ELSE {})
         \cup (IF ty <= 11 /\ ty \notin Types THEN {"type"} ELSE {})
ExactlyWhen == res # "?" => (res = "ok" <=> Fails = {}) /\ (res # "ok" => res \in Fails)

Export == (res = "?" /\ want = 4) => PrintT(ToJson([ty |-> ty, n |-> n, inline |-> inline, room |-> room]))
=============================================================================
