------------------------------ MODULE HiveTrace ------------------------------
(* Is a recorded execution of the real reader a behaviour of HiveApi?         *)
(*                                                                            *)
(* The trace is ndjson, one event per public call (see harness/): the image,  *)
(* the start of a session, every call with its arguments and the complete     *)
(* result, and at the end of a session the difference of the buffer.  Every   *)
(* event takes one step of HiveApi; the call's observed result must be one of *)
(* its admissible results.  Prop selects the property that is being decided:  *)
(* its Scope says which calls are judged and how closely.  A deviation in a   *)
(* call out of scope only makes the handles it produced unknown.              *)
EXTENDS HiveApi, Messages, Json, IOUtils, SequencesExt

CONSTANT Prop

Trace == ndJsonDeserialize(IOEnv.TRACE)
(* the open image is kept in register 11, the last full image in register 12  *)
(* ("imgp" events are given as a few changed bytes of it)                      *)
ImageRec(i) == TLCGet(11)
FullImage(ev) == [n |-> ev.n, h |-> ev.h, d |-> ev.d, z |-> {}]
Patch(f, ps) == FoldLeft(LAMBDA a, x : [a EXCEPT ![x[1] + 1] = x[2]], f, ps)
PatchedImage(b, ev) == [n |-> ev.n, h |-> Patch(b.h, ev.hp), d |-> Patch(b.d, ev.p), z |-> {}]

VARIABLES l,      \* next event
          memo,   \* what was observed before, per operation and structure
          mode    \* "run", or "free": nothing more is known in this session
vars == <<apiVars, l, memo, mode>>

(* LookupIn as specified, with the decoded list remembered within a session   *)
(* (register 10); HiveTrace.cfg substitutes it, FastLookup.cfg checks that    *)
(* both agree.                                                                *)
UpSeq(u) == [i \in 1..Len(u) |-> Up(u[i])]
Prepared(X, L) ==
  LET es == Elems(X, L)
      ns == ListNames(X, es)
      faults == ListFaults(es, ns)
  IN [es |-> es, faults |-> faults,
      un |-> [i \in 1..Len(ns) |-> IF ns[i].t = "ok" THEN UpSeq(Units(X, ns[i].v)) ELSE <<-1>>],
      sorted |-> faults = {} /\ Ascending(X, ns)]
Remembered(L) ==
  IF L \in DOMAIN TLCGet(10) THEN TLCGet(10)[L]
  ELSE LET p == Prepared(H, L) IN IF TLCSet(10, Put(TLCGet(10), L, p)) THEN p ELSE p
FastLookupIn(X, L, q) ==
  LET p == Remembered(L)
      uq == UpSeq(q)
      m == {p.es[i].v : i \in {j \in 1..Len(p.es) : p.un[j] = uq}}
  IN {Ok(k) : k \in m}
     \cup (IF m = {} \/ ~p.sorted THEN {None} ELSE {})
     \cup (IF p.faults # {} THEN {Fail(p.faults)} ELSE {})

(* the decoded units of a value's data are remembered as well (register 13) *)
FastDataUnits(X, d) ==
  IF d \in DOMAIN TLCGet(13) THEN TLCGet(13)[d]
  ELSE LET x == DecodedUnits(X, d)
           p == [u |-> SubSeq(x.u, 1, Len(x.u)), r |-> x.r]
       IN IF TLCSet(13, Put(TLCGet(13), d, p)) THEN p ELSE p

(* ----------------------------- comparing results ------------------------- *)
Crash == {"panic", "abort", "timeout"}
Slice(p, n) == [off |-> IF n = 0 THEN -1 ELSE p + BaseBlock, len |-> n]
Min2(a, b) == IF a < b THEN a ELSE b
SameSlice(s, o) == /\ o.off = Slice(s.p, s.n).off
                   /\ o.len = s.n
                   /\ o.b = Bytes(H, s.p, Min2(s.n, 64))
SameName_(nm, o) == o.enc = nm.enc /\ SameSlice([p |-> nm.p, n |-> nm.len], o)

(* a handle names the structure it denotes: where its name lies tells which   *)
NamedAt(nm, o) == \/ nm.t # "ok" \/ o.t # "ok"
                  \/ nm.v.len = 0 \/ o.off = -1
                  \/ o.off = nm.v.p + BaseBlock
SameKey(k, o) == NamedAt(KeyName(H, k), o.nm)
SameVal(v, o) == NamedAt(ValueName(H, v), o.nm)

EqSet(live, x, o) ==
  \A id \in {o.cd[i] : i \in 1..Len(o.cd)} :
    id \in DOMAIN live => ((live[id] = x) <=> (\E i \in 1..Len(o.eq) : o.eq[i] = id))
NoWild(o) == \A i \in 1..Len(o.eq) : o.eq[i] # 999999999

HintOk(it, n, o) ==
  IF n = -1 THEN TRUE
  ELSE /\ LInt(o.lo) <= n
       /\ o.hi # <<>> => LInt(o.hi) >= n
       /\ Exact(it) => LInt(o.lo) = n /\ o.hi # <<>> /\ LInt(o.hi) = n

(* the same outcome: kind and content, errors by presence only *)
Agrees(o, a, m, r) ==
  \/ m.t = "any"
  \/ m.t = "err" /\ r.t = "err"
  \/ m.t = "none" /\ r.t = "none"
  \/ /\ m.t = "ok" /\ r.t = "ok"
     /\ LET k == OutKind(o, a) IN
        CASE k = "key" -> SameKey(m.v, r)
          [] k = "val" -> SameVal(m.v, r)
          [] k = "name" -> SameName_(m.v, r)
          [] k = "text" -> /\ r.len = m.v.len /\ r.empty = m.v.empty /\ r.disp = m.v.lossy
                           /\ r.na = 1 \/ (/\ r.lossy = m.v.lossy
                                           /\ r.checked.t = m.v.checked.t
                                           /\ r.checked.t = "ok" => r.checked.s = m.v.checked.v)
          [] k = "list" -> r.form = m.v.form
          [] k = "data" -> /\ r.form = m.v.form
                           /\ m.v.form = "small" => SameSlice([p |-> m.v.p, n |-> m.v.n], r)
          [] k = "slice" -> SameSlice(m.v, r)
          [] k = "bytes" -> r.len = Len(m.v) /\ r.b = SubSeq(m.v, 1, Min2(Len(m.v), 70000))
          [] k = "str" -> r.s = m.v
          [] k = "int" -> r.v = m.v
          [] k = "limbs" -> r.v = m.v
          [] k = "count" -> m.v = -1 \/ LInt(r.v) = m.v
          [] k = "hint" -> HintOk(iters[a[1]], m.v, r)
          [] k = "bool" -> r.eq = (IF m.v THEN 1 ELSE 0) /\ r.ne = (IF m.v THEN 0 ELSE 1)
          [] k = "version" -> /\ r.maj = m.v.maj /\ r.min = m.v.min
                              /\ IF KnownMinor(r.min) THEN r.known = LInt(r.min) ELSE r.known \notin 0..6
          [] OTHER -> TRUE

(* a reported error is one that is present, with or without its place *)
SameFault(f, r) == f.k = r.k /\ f.f = r.f
Placed == {"InvalidDataSize", "InvalidFourByteSignature", "InvalidHeaderSize", "InvalidSizeField",
           "InvalidSizeFieldAlignment", "InvalidTwoByteSignature", "UnallocatedCell",
           "UnsupportedKeyValueDataType"}
SameFaultAnywhere(f, r) == f.k = r.k /\ (IF f.k \in Placed THEN Tail(f.f) = Tail(r.f) ELSE f.f = r.f)
FaultsOf(ms) == UNION {IF m.t = "err" THEN m.es ELSE {} : m \in ms}
AnyAllowed(ms) == \E m \in ms : m.t = "any"

(* ------------------------------- the scopes ------------------------------ *)
KindOf(o, a) == IF o \in {"next", "nth", "last", "count", "hint", "len", "clone"} THEN iters[a[1]].k ELSE "-"
Sub(o, a) == KindOf(o, a) \in {"leaf", "root"}

(* C03: the call follows a reference iff it is sound; slices lie where the structure is *)
Followed(o, a, ms, r) ==
  \/ AnyAllowed(ms)
  \/ /\ \E m \in ms : (m.t = "err") = (r.t = "err")
     /\ (r.t = "ok" /\ OutKind(o, a) \in {"name", "slice", "data"}) =>
          \E m \in ms : /\ m.t = "ok"
                        /\ OutKind(o, a) = "name" => r.off = Slice(m.v.p, m.v.len).off /\ r.len = m.v.len
                        /\ OutKind(o, a) = "slice" => r.off = Slice(m.v.p, m.v.n).off /\ r.len = m.v.n
                        /\ (OutKind(o, a) = "data" /\ m.v.form = "small") =>
                             /\ r.form = "small"
                             /\ r.off = Slice(m.v.p, m.v.n).off /\ r.len = m.v.n
                        /\ (OutKind(o, a) = "data" /\ m.v.form = "big") => r.form = "big"

Agree(o, a, ms, r) == \E m \in ms : Agrees(o, a, m, r)
ErrorPresent(ms, r) == (r.t = "err" /\ ~AnyAllowed(ms)) => \E f \in FaultsOf(ms) : SameFaultAnywhere(f, r)
ErrorExact(ms, r) == (r.t = "err" /\ ~AnyAllowed(ms)) =>
                       \E f \in FaultsOf(ms) : SameFault(f, r) /\ r.m = Message(f)
(* the name that comes with a handle *)
NestedName(o, a, good, r) ==
  (r.t = "ok" /\ OutKind(o, a) \in {"key", "val"} /\ Cardinality(good) = 1) =>
    LET m == CHOOSE x \in good : TRUE
    IN m.t = "ok" =>
         LET nm == IF OutKind(o, a) = "key" THEN KeyName(H, m.v) ELSE ValueName(H, m.v)
         IN nm.t = r.nm.t /\ (nm.t = "ok" => SameName_(nm.v, r.nm))
NestedErrorExact(o, a, ms, r) ==
  (r.t = "ok" /\ OutKind(o, a) \in {"key", "val"} /\ r.nm.t = "err") =>
    \A m \in ms : m.t = "ok" =>
       LET nm == IF OutKind(o, a) = "key" THEN KeyName(H, m.v) ELSE ValueName(H, m.v)
       IN nm.t = "err" => \E f \in nm.es : SameFault(f, r.nm) /\ r.nm.m = Message(f)

InScope(o, a) ==
  CASE Prop = "C01" -> FALSE
    [] Prop = "C02" -> o \in {"new", "raw", "validate", "ver"}
    [] Prop = "C03" -> \/ o \in {"root", "root2", "kname", "kclass", "subkey", "subkeys", "values", "value",
                                 "vname", "vdata", "vvec", "vdword", "vqword", "vstr", "vmulti"}
                       \/ o \in {"next", "nth", "last"} /\ KindOf(o, a) # "multi"
    [] Prop = "C04" -> o = "subkeys" \/ (o \in {"next", "nth", "last", "count"} /\ Sub(o, a))
    [] Prop = "C05" -> o = "subkey"
    [] Prop = "C06" -> o = "subpath"
    [] Prop = "C07" -> o \in {"values", "value"} \/ (o \in {"next", "nth", "last", "len", "count"} /\ KindOf(o, a) = "val")
    [] Prop = "C08" -> o \in {"vdata", "vvec", "vsize"} \/ (o \in {"next", "nth", "last"} /\ KindOf(o, a) = "big")
    [] Prop = "C09" -> o \in {"vdword", "vqword", "vtype"}
    [] Prop = "C10" -> o \in {"vstr", "vmulti"} \/ (o \in {"next", "nth", "last", "count"} /\ KindOf(o, a) = "multi")
    [] Prop = "C11" -> FALSE
    [] Prop = "C12" -> o \in {"kname", "vname", "ktext", "vtext", "kclass", "ktclass"} \/ OutKind(o, a) \in {"key", "val"}
    [] Prop = "C13" -> o \in {"next", "nth", "last", "count", "hint", "len", "clone"}
    [] Prop = "C14" -> FALSE
    [] Prop = "C15" -> o \notin {"clear", "cmp", "cmpu", "casesort"}
    [] Prop = "C16" -> FALSE
    [] Prop = "C17" -> o \in {"keq", "veq"} \/ OutKind(o, a) \in {"key", "val"}
    [] Prop = "ALL" -> TRUE
    [] OTHER -> FALSE

Judge(o, a, ms, good, r) ==
  CASE Prop = "C03" -> Followed(o, a, ms, r)
    [] Prop = "C02" -> good # {} /\ ErrorPresent(ms, r)
    [] Prop = "C09" -> good # {} /\ ErrorPresent(ms, r)
    [] Prop = "C12" -> IF OutKind(o, a) \in {"key", "val"} THEN NestedName(o, a, good, r) ELSE good # {}
    [] Prop = "C15" -> ErrorExact(ms, r) /\ (r.t \in Crash \/ NestedErrorExact(o, a, ms, r))
    [] Prop = "C17" -> IF o \in {"keq", "veq"} THEN good # {}
                       ELSE r.t = "ok" =>
                              /\ NoWild(r)
                              /\ Cardinality(good) = 1 =>
                                   LET x == (CHOOSE m \in good : TRUE)
                                       live == IF OutKind(o, a) = "key" THEN Drop(keys, Dest(o, a)) ELSE Drop(vals, Dest(o, a))
                                   IN x.t = "ok" => EqSet(live, x.v, r)
    [] Prop = "ALL" -> /\ good # {} /\ ErrorExact(ms, r) /\ NestedName(o, a, good, r)
                       /\ (r.t = "ok" /\ OutKind(o, a) \in {"key", "val"}) =>
                             /\ NoWild(r)
                             /\ Cardinality(good) = 1 =>
                                   LET x == (CHOOSE m \in good : TRUE)
                                       live == IF OutKind(o, a) = "key" THEN Drop(keys, Dest(o, a)) ELSE Drop(vals, Dest(o, a))
                                   IN x.t = "ok" => EqSet(live, x.v, r)
    [] OTHER -> good # {}

(* comparisons of names: all operators, both argument orders *)
CmpOk(r) ==
  LET c == Cmp(r.x, r.y)
  IN /\ \A i \in 1..Len(r.c) : r.c[i] = c
     /\ \A i \in 1..Len(r.q) : r.q[i] = (IF c = 0 THEN 1 ELSE 0)
     /\ \A i \in 1..Len(r.rel) :
          r.rel[i] = <<IF c < 0 THEN 1 ELSE 0, IF c <= 0 THEN 1 ELSE 0, IF c > 0 THEN 1 ELSE 0, IF c >= 0 THEN 1 ELSE 0>>
CaseSortOk(r) ==
  /\ Len(r.u) = 65536 /\ Len(r.rel) = 65535
  /\ \A i \in 1..65535 : r.rel[i] = Sign(Up(r.u[i]), Up(r.u[i + 1])) /\ r.rel[i] <= 0
  /\ {r.u[i] : i \in 1..65536} = 0..65535
(* pairs of short names: every unit alone, at the end, at the start and in the middle of one *)
CmpuNames(m, x, y) ==
  CASE m = "tail" -> <<<<x>>, <<x, y>>>>
    [] m = "lead" -> <<<<y, x>>, <<y>>>>
    [] m = "more" -> <<<<x, y>>, <<x>>>>
    [] m = "start" -> <<<<y>>, <<y, x>>>>
    [] m = "mid"  -> <<<<x, y, x>>, <<x, x>>>>
    [] m = "lack" -> <<<<x, x>>, <<x, y, x>>>>
    [] m = "swap" -> <<<<x, y>>, <<y, x>>>>
    [] OTHER      -> <<<<x>>, <<y>>>>
CmpuOk(r) == \A i \in 1..Len(r.c) :
               LET p == CmpuNames(r.m, r.x[i], r.y[i])
                   c == Cmp(p[1], p[2])
               IN r.c[i] = c /\ r.q[i] = (IF c = 0 THEN 1 ELSE 0)

(* ------------------------- bookkeeping of the run ------------------------ *)
(* register 1: mismatches, 2: judged calls, 3: calls on unknown handles,      *)
(* 4: steps, 5: memo hits                                                     *)
Bump(k) == TLCSet(k, TLCGet(k) + 1)
Brief(o, a, m) == IF m.t = "err" THEN m ELSE IF m.t = "ok" /\ OutKind(o, a) \in {"int", "count", "limbs", "bool"} THEN m ELSE [t |-> m.t]
Flag(what, ms) == Bump(1) /\ (TLCGet(1) <= 12 => PrintT(<<"MISMATCH", l, what, ms>>))
Check(ok, what, ms) == IF ok THEN TRUE ELSE Flag(what, ms)

(* ---------------------- the memory of earlier answers --------------------- *)
(* what was asked, of which structure: independent of the slots involved      *)
MemoOn == Prop \in {"C06", "C14", "C17", "ALL"}
MemoKey(o, a) ==
  CASE o \in {"kname", "ktext", "kclass", "ktclass", "subkeys", "values"} -> <<o, Cellof(keys[a[1]]), 0>>
    [] o \in {"subkey", "subpath", "value"} -> <<o, Cellof(keys[a[1]]), a[2]>>
    [] o \in {"vname", "vtext", "vtype", "vsize", "vdata", "vvec", "vdword", "vqword", "vstr", "vmulti"} ->
         <<o, Cellof(vals[a[1]]), 0>>
    [] o \in {"next", "last", "count", "hint", "len"} -> <<o, [iters[a[1]] EXCEPT !.hv = 0], 0>>
    [] o = "nth" -> <<o, [iters[a[1]] EXCEPT !.hv = 0], a[2]>>
    [] o \in {"new", "raw", "validate", "ver", "root", "root2"} -> <<o, 0, 0>>
    [] OTHER -> <<>>
(* the part of an observation that does not depend on other handles *)
Strip(o, a, r) == IF OutKind(o, a) \in {"key", "val"} /\ r.t = "ok" THEN [t |-> "ok", nm |-> r.nm] ELSE r

(* the result seen at an earlier event *)
Seen(i) == LET r == Trace[i].r IN IF r.t = "ok" /\ "nm" \in DOMAIN r THEN [t |-> "ok", nm |-> r.nm] ELSE r

(* a path against the components that were looked up before: the observed     *)
(* results, or "?" when one of them was not observed                          *)
Chain(k, comps) ==
  LET n == Len(comps)
      Walk(a, c) ==
        IF a.t # "here" THEN a
        ELSE LET mk == <<"subkey", a.k, c>>
             IN IF mk \notin DOMAIN memo THEN [t |-> "?", i |-> 0]
                ELSE LET x == memo[mk]
                         r == Seen(x.at)
                     IN IF r.t # "ok" \/ a.i = n THEN [t |-> "is", i |-> 0, r |-> r]
                        ELSE IF x.to = {} THEN [t |-> "?", i |-> 0]
                        ELSE [t |-> "here", i |-> a.i + 1, k |-> CHOOSE k2 \in x.to : TRUE]
  IN FoldLeft(Walk, [t |-> "here", i |-> 1, k |-> k], comps)

ChainOk(o, a, r) ==
  (o = "subpath") =>
    LET c == Chain(Cellof(keys[a[1]]), Components(a[2]))
    IN CASE c.t = "?" -> TRUE
         [] c.t = "is" -> Strip(o, a, r) = c.r
         [] c.t = "here" -> r.t = "ok" /\ SameKey([b |-> c.k.b, e |-> c.k.e], r)

(* ------------------------------- one event ------------------------------- *)
Ev == Trace[l]
Init == /\ cur = 0 /\ z = {} /\ keys = NoHandles /\ vals = NoHandles /\ iters = NoHandles
        /\ l = 1 /\ memo = <<>> /\ mode = "run"
        /\ \A k \in 1..5 : TLCSet(k, 0)
        /\ TLCSet(10, <<>>) /\ TLCSet(13, <<>>) /\ TLCSet(11, <<>>) /\ TLCSet(12, <<>>)

Reset == z' = {} /\ keys' = NoHandles /\ vals' = NoHandles /\ iters' = NoHandles
         /\ memo' = <<>> /\ mode' = "run" /\ TLCSet(10, <<>>) /\ TLCSet(13, <<>>)

LoadImage ==
  \/ /\ Ev.e = "img" /\ cur' = l /\ Reset
     /\ LET r == FullImage(Ev) IN TLCSet(11, r) /\ TLCSet(12, r)
  \/ /\ Ev.e = "imgp" /\ cur' = l /\ Reset
     /\ TLCSet(11, PatchedImage(TLCGet(12), Ev))
Session == Ev.e = "sess" /\ UNCHANGED cur /\ Reset

(* a call whose handles the specification does not know *)
Forget(o, a) ==
  LET d == IF o \in {"clear", "cmp", "cmpu", "casesort", "new", "raw", "validate", "ver", "hint", "len", "keq", "veq",
                     "kname", "ktext", "kclass", "ktclass", "vname", "vtext", "vtype", "vsize", "vvec", "vdword",
                     "vqword", "vstr", "count", "kdrop", "vdrop", "idrop"} THEN -1 ELSE Dest(o, a)
      isIter == o \in {"subkeys", "values", "vdata", "vmulti", "clone"}
  IN /\ keys' = IF isIter \/ d = -1 THEN keys ELSE Drop(keys, d)
     /\ vals' = IF isIter \/ d = -1 THEN vals ELSE Drop(vals, d)
     /\ iters' = LET i1 == IF isIter THEN Drop(iters, d) ELSE iters
                 IN IF o \in {"next", "nth", "last", "count"} THEN Drop(i1, a[1]) ELSE i1
     /\ UNCHANGED <<z, cur>>

NoArgs == Ev.o \in {"new", "raw"}
Args == IF NoArgs THEN <<>> ELSE Ev.a

(* "panic" inside the handle description counts as well *)
Crashed(r) == \/ r.t \in Crash
              \/ "nm" \in DOMAIN r /\ r.nm.t \in Crash
              \/ "eq" \in DOMAIN r /\ r.t = "ok" /\ "cd" \in DOMAIN r /\ ~NoWild(r)

CallKnown(o, a, r) ==
  LET ms == Outs(o, a)
      good == {m \in ms : Agrees(o, a, m, r)}
      mk == IF MemoOn THEN MemoKey(o, a) ELSE <<>>
      isKey == OutKind(o, a) \in {"key", "val"}
      seen == Strip(o, a, r)
      to == IF isKey /\ r.t = "ok" /\ Cardinality(good) = 1
            THEN {Cellof(m.v) : m \in {x \in good : x.t = "ok"}} ELSE {}
  IN /\ IF InScope(o, a)
        THEN Bump(2) /\ Check(Judge(o, a, ms, good, r), "result", {Brief(o, a, m) : m \in ms})
        ELSE TRUE
     /\ Prop \in {"C06", "ALL"} => (Bump(5) /\ Check(ChainOk(o, a, r), "path", {}))
     /\ IF mk # <<>> /\ mk \in DOMAIN memo
        THEN /\ Bump(5)
             /\ (Prop \in {"C14", "C17", "ALL"}) =>
                  (* a structure that overlaps a cleared count may legitimately change with it *)
                  Check(Seen(memo[mk].at) = seen \/ (z # {} /\ good # {}), "repeat", {})
             /\ UNCHANGED memo
        ELSE memo' = IF mk # <<>> /\ r.t \notin Crash THEN Put(memo, mk, [at |-> l, to |-> to]) ELSE memo
     /\ IF good = {} \/ (Cardinality(good) > 1 /\ \E m \in good : m.t = "ok") \/ r.t \in Crash
        THEN Forget(o, a)
        ELSE Effect(o, a, CHOOSE m \in good : TRUE)
     /\ UNCHANGED mode

(* a call that is neither judged nor remembered and leaves no handle behind *)
NoEffect == {"new", "raw", "validate", "ver", "hint", "len", "keq", "veq", "kname", "ktext", "kclass", "ktclass",
             "vname", "vtext", "vtype", "vsize", "vvec", "vdword", "vqword", "vstr"}
Idle(o, a) == ~InScope(o, a) /\ o \in NoEffect /\ ~MemoOn

CallUnknown(o, a, r) == Bump(3) /\ Forget(o, a) /\ UNCHANGED <<memo, mode>>

Compare(o, r) ==
  /\ (Prop \in {"C11", "ALL"} /\ r.t \notin Crash) =>
       (Bump(2) /\ Check(CASE o = "cmp" -> CmpOk(r) [] o = "casesort" -> CaseSortOk(r) [] o = "cmpu" -> CmpuOk(r),
                         "order", {}))
  /\ UNCHANGED <<apiVars, memo, mode>>

(* the difference of the buffer that ends this session *)
RECURSIVE EndFrom(_)
EndFrom(i) ==
  IF i > Len(Trace) \/ Trace[i].e \in {"img", "imgp", "sess"} THEN 0
  ELSE IF Trace[i].e = "end" THEN i ELSE EndFrom(i + 1)
Changed(ev) == {ev.diff[i][1] - BaseBlock : i \in 1..Len(ev.diff)}
Zeroed(ev) == \A i \in 1..Len(ev.diff) : ev.diff[i][2] = 0

Clear(r) ==
  LET e == EndFrom(l)
      before == Reach(H)
      vb == VolatileBytes(before.keys)
      now == IF e = 0 THEN {} ELSE z \cup Changed(Trace[e])
      after == IF now = z THEN before ELSE Reach([H EXCEPT !.z = now])
      stable == after = before
      judged == Prop \in {"C14", "ALL"} /\ r.t \notin Crash
  IN IF e = 0 \/ mode = "free" THEN mode' = "free" /\ UNCHANGED <<cur, z, keys, vals, iters, memo>>
     ELSE /\ (judged /\ Prop # "C15" /\ stable) =>
               /\ Bump(2)
               /\ Check((before.es = {}) <=> (r.t = "ok"), "clear-result", {[t |-> "err", es |-> before.es]})
               /\ Check(Changed(Trace[e]) \subseteq vb /\ Zeroed(Trace[e]), "clear-elsewhere", {})
               /\ Check(r.t # "ok" \/ \A p \in vb : Image(cur).d[p + 1] = 0 \/ p \in now, "clear-missed", {})
          /\ (Prop \in {"C15", "ALL"} /\ r.t = "err" /\ stable /\ e # 0) =>
               (Bump(2) /\ Check(\E f \in before.es : SameFault(f, r) /\ r.m = Message(f), "result", {Fail(before.es)}))
          /\ z' = now /\ TLCSet(10, <<>>) /\ TLCSet(13, <<>>)
          /\ keys' = NoHandles /\ vals' = NoHandles /\ iters' = NoHandles
          /\ mode' = IF stable THEN mode ELSE "free"
          /\ UNCHANGED <<cur, memo>>

Call ==
  /\ Ev.e = "op"
  /\ LET o == Ev.o  a == Args  r == Ev.r IN
     /\ Prop = "C01" => (Bump(2) /\ Check(~Crashed(r), "crash", {}))
     /\ IF Prop = "C01" THEN UNCHANGED <<apiVars, memo, mode>>
        ELSE IF o \in {"cmp", "casesort", "cmpu"} THEN Compare(o, r)
        ELSE IF o = "clear" THEN Clear(r)
        ELSE IF mode = "free" THEN UNCHANGED <<apiVars, memo, mode>>
        ELSE IF Known(o, a)
             THEN IF Idle(o, a) THEN UNCHANGED <<apiVars, memo, mode>> ELSE CallKnown(o, a, r)
        ELSE CallUnknown(o, a, r)

End ==
  /\ Ev.e = "end"
  /\ Prop \in {"C17", "ALL"} =>
       (Bump(2) /\ Check(z # {} \/ mode = "free" \/ Ev.diff = <<>>, "buffer", {}))
  /\ UNCHANGED <<apiVars, memo, mode>>

Skip == Ev.e \in {"clearskip", "eof"} /\ UNCHANGED <<apiVars, memo, mode>>

Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Bump(4)
        /\ (LoadImage \/ Session \/ Call \/ End \/ Skip)

View == l     \* the execution is a single path

Spec == Init /\ [][Next]_vars

(* C01 needs no handles: only that every call returns *)
Accepted ==
  /\ PrintT(<<"STATS", [mismatches |-> TLCGet(1), judged |-> TLCGet(2), unknown |-> TLCGet(3), steps |-> TLCGet(4),
                        memo |-> TLCGet(5), events |-> Len(Trace)]>>)
  /\ TLCGet(1) = 0
  /\ TLCGet(4) = Len(Trace)
=============================================================================
