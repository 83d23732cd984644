------------------------------ MODULE HiveApi ------------------------------
(* The reader as a state machine: live handles, iterators and the buffer.     *)
(*                                                                            *)
(* State                                                                      *)
(*   cur   : which image is open (Image(cur) is its record, with z = {})      *)
(*   z     : data positions cleared so far by clear_volatile_subkeys          *)
(*   keys  : live key handles   slot -> [b, e, hv]  (cell body, which hive)   *)
(*   vals  : live value handles slot -> [b, e, hv]                            *)
(*   iters : live iterators     slot -> what is still to be delivered         *)
(*                                                                            *)
(* A call is an operation name o with arguments a (slots, code units of a     *)
(* query, a skip distance, ...).  Outs(o, a) is the set of its admissible     *)
(* results; Effect(o, a, r) is the state after a call that returned r.        *)
EXTENDS HiveFormat, TLC

CONSTANT Image(_)

VARIABLES cur, z, keys, vals, iters
apiVars == <<cur, z, keys, vals, iters>>

NoHandles == <<>>        \* the empty function

H == [Image(cur) EXCEPT !.z = z]

Has(f, s) == s \in DOMAIN f
Put(f, s, v) == (s :> v) @@ f
Drop(f, s) == IF s \in DOMAIN f THEN [x \in DOMAIN f \ {s} |-> f[x]] ELSE f

(* ------------------------------- iterators ------------------------------- *)
(* kinds: "leaf", "root", "val", "big": n items, i delivered or skipped;      *)
(*        "multi": pos = next unit (1-based), 0 = ended, -1 = after an error  *)
SubIter(L, hv) == [k |-> L.form, L |-> L, i |-> 0, n |-> ElemCount(H, L), hv |-> hv]
ValIter(L, hv) == [k |-> "val", L |-> L, i |-> 0, n |-> L.n, hv |-> hv]
BigIter(d) == [k |-> "big", L |-> d, i |-> 0, n |-> SegCount(d), hv |-> 1]
MultiIter(d) == [k |-> "multi", L |-> d, pos |-> 1, hv |-> 1]

Exact(it) == it.k \in {"leaf", "val", "big"}

ItemAt(it, i) ==
  CASE it.k \in {"leaf", "root"} -> Elem(H, it.L, i)
    [] it.k = "val" -> ValueElem(H, it.L, i)
    [] it.k = "big" -> Segment(H, it.L, i)

(* skipping m items from item i of n leads to the end *)
Beyond(i, m, n) == m > n \/ i + m >= n

(* result and iterator after skipping m items and delivering one *)
RECURSIVE MultiNth(_, _, _)
MultiNth(it, du, m) ==
  IF it.pos = 0 THEN [r |-> None, it |-> it]
  ELSE LET x == MultiAt(du, it.pos)
           it2 == [it EXCEPT !.pos = x.pos]
       IN IF x.r.t = "none" THEN [r |-> None, it |-> it2]
          ELSE IF m = 0 THEN [r |-> x.r, it |-> it2]
          ELSE IF x.pos = -1 THEN [r |-> [t |-> "any"], it |-> it2]
          ELSE MultiNth(it2, du, m - 1)

Advance(it, m) ==
  IF it.k = "multi"
  THEN IF it.pos = -1 THEN [r |-> [t |-> "any"], it |-> it] ELSE MultiNth(it, DataUnits(H, it.L), m)
  ELSE IF Beyond(it.i, m, it.n) THEN [r |-> None, it |-> [it EXCEPT !.i = it.n]]
  ELSE [r |-> ItemAt(it, it.i + m), it |-> [it EXCEPT !.i = it.i + m + 1]]

(* how many items remain; -1 when an unreadable segment makes that open *)
RECURSIVE MultiLeft(_, _)
MultiLeft(du, pos) ==
  IF pos = 0 THEN 0
  ELSE IF pos = -1 THEN -1
  ELSE LET x == MultiAt(du, pos)
       IN IF x.r.t = "none" THEN 0
          ELSE IF x.pos = -1 THEN -1
          ELSE LET rest == MultiLeft(du, x.pos)
               IN IF rest = -1 THEN -1 ELSE rest + 1
Left(it) == IF it.k = "multi" THEN MultiLeft(DataUnits(H, it.L), it.pos) ELSE it.n - it.i

LastOf(it) ==
  LET n == Left(it)
  IN IF n = -1 THEN [t |-> "any"] ELSE IF n = 0 THEN None ELSE Advance(it, n - 1).r

(* -------------------------------- results -------------------------------- *)
Handle(r, hv) == IF r.t = "ok" THEN Ok([b |-> r.v.b, e |-> r.v.e, hv |-> hv]) ELSE r
Cellof(k) == [b |-> k.b, e |-> k.e]

(* what an iterator delivers: handles for keys and values, otherwise the item *)
Handle2(r, it) == IF it.k \in {"leaf", "root", "val"} THEN Handle(r, it.hv) ELSE r

(* everything a name tells about itself *)
NameText(nm) ==
  LET u == Units(H, nm)
  IN [len |-> nm.len, empty |-> IF nm.len = 0 THEN 1 ELSE 0, lossy |-> Lossy(u),
      checked |-> IF Convertible(u) THEN Ok(Lossy(u)) ELSE None]
TextOf(r) == IF r.t = "ok" THEN Ok(NameText(r.v)) ELSE r

Same(x, y) == x = y

KeyOps == {"kname", "ktext", "kclass", "ktclass", "subkey", "subpath", "subkeys", "values", "value", "kclone", "kdrop"}
ValOps == {"vname", "vtext", "vtype", "vsize", "vdata", "vdword", "vqword", "vvec", "vstr", "vmulti", "vclone", "vdrop"}
IterOps == {"next", "nth", "last", "count", "hint", "len", "clone", "idrop"}

(* the handles a call needs are known to the specification *)
Known(o, a) ==
  CASE o \in KeyOps -> Has(keys, a[1])
    [] o \in ValOps -> Has(vals, a[1])
    [] o \in IterOps -> Has(iters, a[1])
    [] o = "keq" -> Has(keys, a[1]) /\ Has(keys, a[2])
    [] o = "veq" -> Has(vals, a[1]) /\ Has(vals, a[2])
    [] OTHER -> TRUE

(* what the type of a result is, for the comparison with an observation *)
OutKind(o, a) ==
  CASE o \in {"root", "root2", "subkey", "subpath", "kclone"} -> "key"
    [] o \in {"value", "vclone"} -> "val"
    [] o \in {"kname", "kclass", "vname"} -> "name"
    [] o \in {"ktext", "ktclass", "vtext"} -> "text"
    [] o \in {"next", "nth", "last"} ->
         (CASE iters[a[1]].k \in {"leaf", "root"} -> "key"
            [] iters[a[1]].k = "val" -> "val"
            [] iters[a[1]].k = "big" -> "slice"
            [] iters[a[1]].k = "multi" -> "str")
    [] o = "subkeys" -> "list"
    [] o \in {"values", "vmulti", "clone", "validate", "kdrop", "vdrop", "idrop"} -> "unit"
    [] o = "vdata" -> "data"
    [] o = "vvec" -> "bytes"
    [] o = "vstr" -> "str"
    [] o = "vtype" -> "int"
    [] o \in {"vsize", "vdword", "vqword"} -> "limbs"
    [] o \in {"count", "len"} -> "count"
    [] o = "hint" -> "hint"
    [] o \in {"keq", "veq"} -> "bool"
    [] o \in {"new", "raw", "ver"} -> "version"
    [] o = "clear" -> "clear"
    [] OTHER -> "other"

Unit(r) == IF r.t = "ok" THEN Ok(0) ELSE r

(* the set of admissible results *)
Outs(o, a) ==
  CASE o = "new" -> {OpenValidated(H)}
    [] o = "raw" -> {OpenRaw(H)}
    [] o = "validate" -> {Validate(H)}
    [] o = "ver" -> {Ok(Version(H))}
    [] o = "root" -> {Handle(RootKey(H), 1)}
    [] o = "root2" -> {Handle(RootKey(H), 2)}
    [] o = "kname" -> {KeyName(H, keys[a[1]])}
    [] o = "kclass" -> {ClassName(H, keys[a[1]])}
    [] o = "ktext" -> {TextOf(KeyName(H, keys[a[1]]))}
    [] o = "ktclass" -> {TextOf(ClassName(H, keys[a[1]]))}
    [] o = "subkey" -> {Handle(r, keys[a[1]].hv) : r \in Lookup(H, keys[a[1]], a[2])}
    [] o = "subpath" -> {Handle(r, keys[a[1]].hv) : r \in Path(H, Cellof(keys[a[1]]), a[2])}
    [] o = "subkeys" -> {SubkeysList(H, keys[a[1]])}
    [] o = "values" -> {Unit(ValueList(H, keys[a[1]]))}
    [] o = "value" -> {Handle(ValueLookup(H, keys[a[1]], a[2]), keys[a[1]].hv)}
    [] o = "kclone" -> {Ok(keys[a[1]])}
    [] o = "vclone" -> {Ok(vals[a[1]])}
    [] o = "vname" -> {ValueName(H, vals[a[1]])}
    [] o = "vtext" -> {TextOf(ValueName(H, vals[a[1]]))}
    [] o = "vtype" -> {DataType(H, vals[a[1]])}
    [] o = "vsize" -> {Ok(DataSize(H, vals[a[1]]))}
    [] o = "vdata" -> {Data(H, vals[a[1]])}
    [] o = "vvec" -> {AllBytes(H, vals[a[1]])}
    [] o = "vdword" -> {DWord(H, vals[a[1]])}
    [] o = "vqword" -> {QWord(H, vals[a[1]])}
    [] o = "vstr" -> {Text(H, vals[a[1]])}
    [] o = "vmulti" -> {Unit(MultiOpen(H, vals[a[1]]))}
    [] o = "next" -> {Handle2(Advance(iters[a[1]], 0).r, iters[a[1]])}
    [] o = "nth" -> {Handle2(Advance(iters[a[1]], a[2]).r, iters[a[1]])}
    [] o = "last" -> {Handle2(LastOf(iters[a[1]]), iters[a[1]])}
    [] o \in {"count", "len", "hint"} -> {Ok(Left(iters[a[1]]))}
    [] o \in {"clone", "kdrop", "vdrop", "idrop"} -> {Ok(0)}
    [] o = "keq" -> {Ok(keys[a[1]] = keys[a[2]])}
    [] o = "veq" -> {Ok(vals[a[1]] = vals[a[2]])}
    [] o = "clear" -> {LET x == Reach(H) IN IF x.es = {} THEN Ok(VolatileBytes(x.keys)) ELSE Fail(x.es)}
    [] OTHER -> {[t |-> "any"]}

(* slot that receives the result of a call *)
Dest(o, a) ==
  CASE o \in {"root", "root2"} -> a[1]
    [] o \in {"subkey", "subpath", "value", "nth"} -> a[3]
    [] OTHER -> a[2]

(* ------------------------- the state after a call ------------------------ *)
(* r is the admissible result that was returned; [t |-> "lost"] means that    *)
(* the specification does not know which one (the handle becomes unknown).    *)
SetKey(s, r) == keys' = IF r.t = "ok" THEN Put(keys, s, r.v) ELSE Drop(keys, s)
SetVal(s, r) == vals' = IF r.t = "ok" THEN Put(vals, s, r.v) ELSE Drop(vals, s)
SetIter(s, ok, it) == iters' = IF ok THEN Put(iters, s, it) ELSE Drop(iters, s)

(* an iterator after delivering r: after an error in text, the end is final *)
StepIter(it, m, r) ==
  LET x == Advance(it, m)
  IN IF x.it.k = "multi" /\ x.it.pos = -1 /\ r.t = "none" THEN [x.it EXCEPT !.pos = 0] ELSE x.it

Effect(o, a, r) ==
  /\ CASE OutKind(o, a) = "key" -> SetKey(Dest(o, a), r) /\ UNCHANGED vals
       [] OutKind(o, a) = "val" -> SetVal(Dest(o, a), r) /\ UNCHANGED keys
       [] o = "kdrop" -> keys' = Drop(keys, a[1]) /\ UNCHANGED vals
       [] o = "vdrop" -> vals' = Drop(vals, a[1]) /\ UNCHANGED keys
       [] o = "clear" -> keys' = NoHandles /\ vals' = NoHandles
       [] OTHER -> UNCHANGED <<keys, vals>>
  /\ CASE o = "subkeys" -> SetIter(a[2], r.t = "ok", SubIter(r.v, keys[a[1]].hv))
       [] o = "values" -> SetIter(a[2], r.t = "ok", ValIter(ValueList(H, keys[a[1]]).v, keys[a[1]].hv))
       [] o = "vdata" -> SetIter(a[2], r.t = "ok" /\ r.v.form = "big", BigIter(r.v))
       [] o = "vmulti" -> SetIter(a[2], r.t = "ok", MultiIter(MultiOpen(H, vals[a[1]]).v))
       [] o = "next" -> iters' = Put(iters, a[1], StepIter(iters[a[1]], 0, r))
       [] o = "nth" -> iters' = Put(iters, a[1], StepIter(iters[a[1]], a[2], r))
       [] o \in {"last", "count", "idrop"} -> iters' = Drop(iters, a[1])
       [] o = "clone" -> iters' = Put(iters, a[2], iters[a[1]])
       [] o = "clear" -> iters' = NoHandles
       [] OTHER -> UNCHANGED iters
  /\ z' = IF o = "clear" /\ r.t = "ok" THEN z \cup r.v ELSE z
  /\ UNCHANGED cur
=============================================================================
