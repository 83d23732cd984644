-------------------------------- MODULE MCCell --------------------------------
(* Following a reference to a cell (C03), with the reader's checked machine   *)
(* arithmetic in small words - against "followed iff the cell is allocated,   *)
(* a multiple of 8 bytes long and wholly inside the data".                    *)
EXTENDS Integers, TLC, Json

CONSTANTS Word,        \* a power of two: offsets 0..Word-1, size fields -Word/2..Word/2-1
          MaxLen       \* bytes of data

VARIABLES n, o, s, ph, b, e, res
vars == <<n, o, s, ph, b, e, res>>
Init == /\ n \in 0..MaxLen /\ o \in 0..(Word - 1) /\ s \in (-(Word \div 2))..(Word \div 2 - 1)
        /\ ph = "header" /\ b = 0 /\ e = 0 /\ res = "?"

(* start + count, unless it exceeds the machine word or the range's end *)
Fits(start, count, end) == start + count < Word /\ start + count <= end

Header == /\ ph = "header"
          /\ IF Fits(o, 4, n) THEN ph' = "size" /\ b' = o + 4 /\ UNCHANGED res
             ELSE ph' = "done" /\ res' = "outside" /\ UNCHANGED b
          /\ UNCHANGED <<n, o, s, e>>
Size == /\ ph = "size"
        /\ ph' = "done" /\ UNCHANGED <<n, o, s, b>>
        /\ IF s >= 0 THEN res' = "free" /\ UNCHANGED e
           ELSE IF (-s) % 8 # 0 THEN res' = "misaligned" /\ UNCHANGED e
           ELSE IF ~Fits(b, -s - 4, n) THEN res' = "overrun" /\ UNCHANGED e
           ELSE res' = "ok" /\ e' = b + (-s) - 4
Next == Header \/ Size
Spec == Init /\ [][Next]_vars

(* -------------------------------- contract -------------------------------- *)
Sound == o + 4 <= n /\ s < 0 /\ (-s) % 8 = 0 /\ o + (-s) <= n
FollowedIffSound == ph = "done" => (res = "ok" <=> Sound)
Inside == res = "ok" => o + 4 = b /\ b <= e /\ e <= n /\ e - o = -s
NamesFault == ph = "done" => /\ res = "outside" => o + 4 > n
                             /\ res = "free" => s >= 0
                             /\ res = "misaligned" => s < 0 /\ (-s) % 8 # 0
                             /\ res = "overrun" => o + (-s) > n
(* what is worth trying on the real reader *)
Near(x, y) == x - y \in -9..9
Interesting == \/ o + 4 > n - 5 /\ (s < -3 \/ s \in 0..1)
               \/ Near(o - s, n)
               \/ o >= Word - 9
               \/ s < 9 - Word \div 2
Export == (ph = "header" /\ Interesting) => PrintT(ToJson([n |-> n, o |-> o, s |-> s]))
=============================================================================
