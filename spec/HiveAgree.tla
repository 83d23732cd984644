------------------------------ MODULE HiveAgree ------------------------------
(* C16: one history of calls, executed under two configurations.              *)
(*                                                                            *)
(* REF and TRACE are recordings of the same scenario: REF by the reference    *)
(* configuration (std, 64-bit little-endian, overflow checks, shared slice,   *)
(* aligned heap buffer), TRACE by another one.  Both traces advance in lock   *)
(* step; a step exists only if the two observations agree.                    *)
(* Observations agree when they are equal, except that                        *)
(*  - on a 32-bit machine a number that does not fit may be saturated (and    *)
(*    then appears like that in the message),                                 *)
(*  - a build without alloc has no String conversions to report ("na"),       *)
(*  - the text of a panic is not compared.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Limbs, TLC, Json, IOUtils

Ref == ndJsonDeserialize(IOEnv.REF)
Var == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, w
vars == <<l, w>>

IsLimbs(x) == Len(x) = 4
SameField(x, y) == x = y \/ (w = 32 /\ IsLimbs(x) /\ LSat32(x) # x /\ y = LSat32(x))
SameErr(x, y) ==
  /\ x.k = y.k /\ Len(x.f) = Len(y.f)
  /\ \A i \in 1..Len(x.f) : SameField(x.f[i], y.f[i])
  /\ x.f = y.f => x.m = y.m
Crash == {"panic", "abort", "timeout"}

(* slices are compared by their place in the file, never by address *)
RECURSIVE Same(_, _)
Same(x, y) ==
  \/ x = y
  \/ x.t = y.t /\ x.t \in Crash
  \/ x.t = "err" /\ y.t = "err" /\ SameErr(x, y)
  \/ /\ x.t = "ok" /\ y.t = "ok" /\ DOMAIN x = DOMAIN y
     /\ CASE "nm" \in DOMAIN x -> Same(x.nm, y.nm) /\ x.cd = y.cd /\ x.eq = y.eq
          [] "na" \in DOMAIN x -> /\ x.len = y.len /\ x.empty = y.empty /\ x.disp = y.disp
                                  /\ y.na = 1 \/ x.na = 1 \/ (x.lossy = y.lossy /\ x.checked = y.checked)
          [] "hi" \in DOMAIN x -> /\ SameField(x.lo, y.lo)
                                  /\ x.hi = y.hi \/ (Len(x.hi) = 4 /\ Len(y.hi) = 4 /\ SameField(x.hi, y.hi))
          [] "v" \in DOMAIN x /\ DOMAIN x = {"t", "v"} ->
               \* an integer read from a value never saturates; counts and lengths may
               FALSE
          [] OTHER -> FALSE

Bump(k) == TLCSet(k, TLCGet(k) + 1)
Flag(what, x) == Bump(1) /\ (TLCGet(1) <= 12 => PrintT(<<"MISMATCH", l, what, x>>))
Check(ok, what, x) == IF ok THEN TRUE ELSE Flag(what, x)

Agree(x, y) ==
  CASE x.e # y.e -> FALSE
    [] x.e = "op" -> /\ x.o = y.o
                     /\ ("a" \in DOMAIN x) = ("a" \in DOMAIN y)
                     /\ "a" \in DOMAIN x => x.a = y.a
                     /\ Same(x.r, y.r)
    [] x.e = "end" -> x.diff = y.diff
    [] x.e \in {"img", "imgp"} -> x.n = y.n
    [] OTHER -> TRUE

Init == l = 1 /\ w = 64 /\ \A k \in 1..5 : TLCSet(k, 0)
Next ==
  /\ l <= Len(Var) /\ l <= Len(Ref)
  /\ l' = l + 1
  /\ w' = IF Var[l].e = "sess" THEN Var[l].w ELSE w
  /\ Bump(4)
  /\ Var[l].e = "op" => Bump(2)
  /\ Check(Agree(Ref[l], Var[l]), "disagree",
           IF Ref[l].e = "op" THEN [t |-> Ref[l].r.t, o |-> Ref[l].o] ELSE [t |-> Ref[l].e])

View == l
Spec == Init /\ [][Next]_vars

Accepted ==
  /\ PrintT(<<"STATS", [mismatches |-> TLCGet(1), judged |-> TLCGet(2), unknown |-> 0, steps |-> TLCGet(4),
                        memo |-> 0, events |-> Len(Var)]>>)
  /\ Len(Ref) = Len(Var)
  /\ TLCGet(1) = 0
  /\ TLCGet(4) = Len(Var)
=============================================================================
