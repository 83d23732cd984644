------------------------------ MODULE MCSession ------------------------------
(* The byte-level reader (HiveApi) against an abstract registry.              *)
(*                                                                            *)
(* One small hive is given twice: as bytes, and as the tree of keys, values   *)
(* and texts that was laid out in them.  Sessions with a few handle slots are *)
(* explored completely.  Every handle carries a ghost: the abstract thing it  *)
(* was reached as, computed on the tree alone, never from bytes.  Invariants: *)
(*   Answers   every enabled call has exactly one admissible result, and it   *)
(*             is the abstract registry's answer, whatever the history        *)
(*   Identity  handles are equal exactly when their ghosts are, however they  *)
(*             were obtained                                                  *)
(*   Remaining iterators and their abstract sequences agree                   *)
(* Each state's history is exported with every call enabled in it, and        *)
(* replayed on the real crate.                                                *)
EXTENDS HiveApi, Json, IOUtils

CONSTANTS KSlots, VSlots, ISlots,   \* numbers of slots
          Clearing,                 \* the session may clear volatile counts
          Depth                     \* longest history

World == JsonDeserialize(IOEnv.WORLD)
VARIABLES w,                        \* the world, read once
          gk, gv, gi,               \* ghosts of the live handles
          hist
vars == <<apiVars, w, gk, gv, gi, hist>>

FileImage(i) == [n |-> w.n, h |-> w.h, d |-> w.d, z |-> {}]

Node(k) == w.nodes[k]
Val(v) == w.vals[v]
Queries == w.queries
VQueries == w.vqueries
Paths == w.paths

(* ------------------------- the abstract registry ------------------------- *)
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
AFind(k, q) ==
  LET kids == Node(k).kids
      m == {j \in 1..Len(kids) : SameName(Node(kids[j]).name, q)}
  IN IF m = {} THEN 0 ELSE kids[FirstOf(m)]
AFindVal(k, q) ==
  LET vs == Node(k).vals
      m == {j \in 1..Len(vs) : SameName(Val(vs[j]).name, q)}
  IN IF m = {} THEN 0 ELSE vs[FirstOf(m)]
RECURSIVE AWalk(_, _)
AWalk(k, comps) ==
  IF k = 0 \/ comps = <<>> THEN k ELSE AWalk(AFind(k, Head(comps)), Tail(comps))

(* the sequence an iterator denotes *)
ASeq(g) ==
  CASE g.k = "kids" -> Node(g.of).kids
    [] g.k = "vals" -> Node(g.of).vals
    [] g.k = "lines" -> Val(g.of).lines
    [] g.k = "parts" -> Val(g.of).parts
ALeft(g) == Len(ASeq(g)) - g.i
AItem(g, m) == IF m >= ALeft(g) THEN 0 ELSE ASeq(g)[g.i + m + 1]
AStep(g, m) == [g EXCEPT !.i = IF m >= ALeft(g) THEN Len(ASeq(g)) ELSE g.i + m + 1]

(* ------------------------------- the calls ------------------------------- *)
KS == 1..KSlots
VS == 1..VSlots
IS == 1..ISlots
Cat(i) == iters[i].k
ItemSlots(i) == IF Cat(i) \in {"leaf", "root"} THEN KS ELSE IF Cat(i) = "val" THEN VS ELSE {1}

Moves ==
  {<<"root", <<s>>>> : s \in KS}
  \cup (IF Clearing THEN {<<"clear", <<>>>>} ELSE {<<"root2", <<s>>>> : s \in KS})
  \cup {<<"subkey", <<k, Queries[q], s>>>> : k \in DOMAIN keys, q \in 1..Len(Queries), s \in KS}
  \cup {<<"subpath", <<k, Paths[q], s>>>> : k \in DOMAIN keys, q \in 1..Len(Paths), s \in KS}
  \cup {<<"value", <<k, VQueries[q], s>>>> : k \in DOMAIN keys, q \in 1..Len(VQueries), s \in VS}
  \cup {<<"subkeys", <<k, s>>>> : k \in DOMAIN keys, s \in IS}
  \cup {<<"values", <<k, s>>>> : k \in DOMAIN keys, s \in IS}
  \cup {<<o, <<v, s>>>> : o \in {"vdata", "vmulti"}, v \in DOMAIN vals, s \in IS}
  \cup {<<"kclone", <<k, s>>>> : k \in DOMAIN keys, s \in KS}
  \cup {<<"vclone", <<v, s>>>> : v \in DOMAIN vals, s \in VS}
  \cup {<<"clone", <<i, s>>>> : i \in DOMAIN iters, s \in IS}
  \cup {<<"kdrop", <<k>>>> : k \in DOMAIN keys}
  \cup {<<"vdrop", <<v>>>> : v \in DOMAIN vals}
  \cup {<<o, <<i>>>> : o \in {"idrop", "count"}, i \in DOMAIN iters}
  \cup UNION {{<<o, <<i, s>>>> : o \in {"next", "last"}, s \in ItemSlots(i)} : i \in DOMAIN iters}
  \cup UNION {{<<"nth", <<i, m, s>>>> : m \in 0..2, s \in ItemSlots(i)} : i \in DOMAIN iters}

Reads ==
  {<<o, <<k>>>> : o \in {"kname", "ktext", "kclass", "ktclass"}, k \in DOMAIN keys}
  \cup {<<o, <<v>>>> : o \in {"vname", "vtext", "vtype", "vsize", "vvec", "vdword", "vqword", "vstr"}, v \in DOMAIN vals}
  \cup {<<"hint", <<i>>>> : i \in DOMAIN iters}
  \cup {<<"len", <<i>>>> : i \in {j \in DOMAIN iters : Exact(iters[j])}}
  \cup {<<"keq", <<a, b>>>> : a, b \in DOMAIN keys}
  \cup {<<"veq", <<a, b>>>> : a, b \in DOMAIN vals}
  \cup {<<"validate", <<>>>>, <<"ver", <<>>>>}

Possible(c) == ISlots = 0 => c[1] \notin {"vdata", "vmulti"}

(* ---------------------- what the registry must answer --------------------- *)
(* ok: does the abstract call give something; id / hv: the thing              *)
Got(x, hv) == IF x = 0 THEN [t |-> "none"] ELSE [t |-> "ok", id |-> x, hv |-> hv]
HasParts(v) == Val(v).form = "big"
Lim(bs) == [j \in 1..4 |-> IF 2 * j <= Len(bs) THEN bs[2 * j - 1] + 256 * bs[2 * j] ELSE 0]
Rev(bs) == [j \in 1..Len(bs) |-> bs[Len(bs) + 1 - j]]

AHandle(o, a) ==
  CASE o = "root" -> Got(1, 1)
    [] o = "root2" -> Got(1, 2)
    [] o = "subkey" -> Got(AFind(gk[a[1]].id, a[2]), gk[a[1]].hv)
    [] o = "subpath" -> Got(AWalk(gk[a[1]].id, Components(a[2])), gk[a[1]].hv)
    [] o = "value" -> Got(AFindVal(gk[a[1]].id, a[2]), gk[a[1]].hv)
    [] o = "kclone" -> Got(gk[a[1]].id, gk[a[1]].hv)
    [] o = "vclone" -> Got(gv[a[1]].id, gv[a[1]].hv)
    [] o = "next" -> Got(AItem(gi[a[1]], 0), gi[a[1]].hv)
    [] o = "nth" -> Got(AItem(gi[a[1]], a[2]), gi[a[1]].hv)
    [] o = "last" -> Got(IF ALeft(gi[a[1]]) = 0 THEN 0 ELSE AItem(gi[a[1]], ALeft(gi[a[1]]) - 1), gi[a[1]].hv)
HandleOps == {"root", "root2", "subkey", "subpath", "value", "kclone", "vclone"}
ItemOps == {"next", "nth", "last"}

UnitsOf(r) == Units(H, r.v)
AnswersRight(o, a, r) ==
  CASE o \in HandleOps \/ (o \in ItemOps /\ gi[a[1]].k \in {"kids", "vals"}) ->
         LET x == AHandle(o, a) IN
         /\ r.t = x.t
         /\ x.t = "ok" =>
              IF OutKind(o, a) = "key"
              THEN KeyName(H, r.v).t = "ok" /\ UnitsOf(KeyName(H, r.v)) = Node(x.id).name /\ r.v.hv = x.hv
              ELSE ValueName(H, r.v).t = "ok" /\ UnitsOf(ValueName(H, r.v)) = Val(x.id).name /\ r.v.hv = x.hv
    [] o \in ItemOps ->
         LET g == gi[a[1]]
             m == IF o = "nth" THEN a[2] ELSE IF o = "last" THEN ALeft(g) - 1 ELSE 0
         IN IF m < 0 \/ m >= ALeft(g) THEN r.t = "none"
            ELSE /\ r.t = "ok"
                 /\ IF g.k = "lines" THEN r.v = Lossy(ASeq(g)[g.i + m + 1])
                    ELSE r.v.n = ASeq(g)[g.i + m + 1]
    [] o \in {"count", "len", "hint"} -> r.t = "ok" /\ r.v = ALeft(gi[a[1]])
    [] o = "kname" -> r.t = "ok" /\ UnitsOf(r) = Node(gk[a[1]].id).name
    [] o = "ktext" -> r.t = "ok" /\ r.v.lossy = Lossy(Node(gk[a[1]].id).name)
    [] o \in {"kclass", "ktclass"} ->
         LET c == Node(gk[a[1]].id).cls
         IN IF c = <<>> THEN r.t = "none"
            ELSE r.t = "ok" /\ IF o = "kclass" THEN UnitsOf(r) = c[1] ELSE r.v.lossy = Lossy(c[1])
    [] o = "vname" -> r.t = "ok" /\ UnitsOf(r) = Val(gv[a[1]].id).name
    [] o = "vtext" -> r.t = "ok" /\ r.v.lossy = Lossy(Val(gv[a[1]].id).name)
    [] o = "vtype" -> LET v == Val(gv[a[1]].id) IN IF v.ty > 11 THEN r.t = "err" ELSE r = Ok(v.ty)
    [] o = "vsize" -> r = Ok(LOf(Len(Val(gv[a[1]].id).data)))
    [] o = "vvec" -> r = Ok(Val(gv[a[1]].id).data)
    [] o = "vdword" -> LET v == Val(gv[a[1]].id)
                       IN IF v.ty \in {4, 5} /\ Len(v.data) = 4
                          THEN r = Ok(Lim(IF v.ty = 4 THEN v.data ELSE Rev(v.data)))
                          ELSE r.t = "err"
    [] o = "vqword" -> LET v == Val(gv[a[1]].id)
                       IN IF v.ty = 11 /\ Len(v.data) = 8 THEN r = Ok(Lim(v.data)) ELSE r.t = "err"
    [] o = "vstr" -> LET v == Val(gv[a[1]].id)
                     IN IF v.ty \in {1, 2} THEN r = Ok(Lossy(v.text)) ELSE r.t = "err"
    [] o = "vmulti" -> IF Val(gv[a[1]].id).ty = 7 THEN r.t = "ok" ELSE r.t = "err"
    [] o = "vdata" -> r.t = "ok" /\ r.v.n = Len(Val(gv[a[1]].id).data)
                      /\ (r.v.form = "big") = HasParts(gv[a[1]].id)
    [] o = "subkeys" -> IF Node(gk[a[1]].id).haslist = 0 THEN r.t = "none" ELSE r.t = "ok"
    [] o = "values" -> IF Node(gk[a[1]].id).hasvals = 0 THEN r.t = "none" ELSE r.t = "ok"
    [] o = "keq" -> r = Ok(gk[a[1]] = gk[a[2]])
    [] o = "veq" -> r = Ok(gv[a[1]] = gv[a[2]])
    [] o = "ver" -> r.t = "ok"
    [] OTHER -> r.t \in {"ok", "err"}

(* -------------------------------- behaviour ------------------------------- *)
(* two results that name the same thing twice in a list are both admissible   *)
Result(o, a) == CHOOSE r \in Outs(o, a) : TRUE

GPut(f, s, x) == IF x.t = "ok" THEN Put(f, s, [id |-> x.id, hv |-> x.hv]) ELSE Drop(f, s)
GIter(s, ok, k, of, hv) == gi' = IF ok THEN Put(gi, s, [k |-> k, of |-> of, i |-> 0, hv |-> hv]) ELSE Drop(gi, s)

Ghosts(o, a, r) ==
  /\ CASE OutKind(o, a) = "key" -> gk' = GPut(gk, Dest(o, a), AHandle(o, a)) /\ UNCHANGED gv
       [] OutKind(o, a) = "val" -> gv' = GPut(gv, Dest(o, a), AHandle(o, a)) /\ UNCHANGED gk
       [] o = "kdrop" -> gk' = Drop(gk, a[1]) /\ UNCHANGED gv
       [] o = "vdrop" -> gv' = Drop(gv, a[1]) /\ UNCHANGED gk
       [] o = "clear" -> gk' = NoHandles /\ gv' = NoHandles
       [] OTHER -> UNCHANGED <<gk, gv>>
  /\ CASE o = "subkeys" -> GIter(a[2], Node(gk[a[1]].id).haslist = 1, "kids", gk[a[1]].id, gk[a[1]].hv)
       [] o = "values" -> GIter(a[2], Node(gk[a[1]].id).hasvals = 1, "vals", gk[a[1]].id, gk[a[1]].hv)
       [] o = "vdata" -> GIter(a[2], HasParts(gv[a[1]].id), "parts", gv[a[1]].id, 1)
       [] o = "vmulti" -> GIter(a[2], Val(gv[a[1]].id).ty = 7, "lines", gv[a[1]].id, 1)
       [] o = "next" -> gi' = Put(gi, a[1], AStep(gi[a[1]], 0))
       [] o = "nth" -> gi' = Put(gi, a[1], AStep(gi[a[1]], a[2]))
       [] o \in {"last", "count", "idrop"} -> gi' = Drop(gi, a[1])
       [] o = "clone" -> gi' = Put(gi, a[2], gi[a[1]])
       [] o = "clear" -> gi' = NoHandles
       [] OTHER -> UNCHANGED gi

Init == /\ w = World
        /\ cur = 1 /\ z = {} /\ keys = NoHandles /\ vals = NoHandles /\ iters = NoHandles
        /\ gk = NoHandles /\ gv = NoHandles /\ gi = NoHandles /\ hist = <<>>

Do(c) ==
  LET r == Result(c[1], c[2])
  IN /\ Effect(c[1], c[2], r)
     /\ Ghosts(c[1], c[2], r)
     /\ hist' = Append(hist, c)
     /\ UNCHANGED w

Next == Len(hist) < Depth /\ \E c \in Moves : Possible(c) /\ Do(c)
Spec == Init /\ [][Next]_vars
View == <<keys, vals, iters, z # {}>>

(* -------------------------------- invariants ------------------------------ *)
Handles == DOMAIN keys = DOMAIN gk /\ DOMAIN vals = DOMAIN gv /\ DOMAIN iters = DOMAIN gi

Right(c) ==
  \E r \in Outs(c[1], c[2]) :
     /\ Outs(c[1], c[2]) = {r}
     /\ c[1] = "clear" \/ AnswersRight(c[1], c[2], r)
     /\ c[1] = "clear" => r.t = "ok" /\ Cardinality(r.v) = 4 * Len(w.nodes)

Answers == \A c \in Moves \cup Reads : Right(c) \/ (PrintT(<<"WRONG", hist, c, Outs(c[1], c[2])>>) /\ FALSE)

Identity == /\ \A a, b \in DOMAIN keys : (keys[a] = keys[b]) <=> (gk[a] = gk[b])
            /\ \A a, b \in DOMAIN vals : (vals[a] = vals[b]) <=> (gv[a] = gv[b])

Remaining == \A i \in DOMAIN iters : Left(iters[i]) = ALeft(gi[i])

(* reading never changes the buffer, and clearing only zeroes volatile counts *)
Unchanged == z # {} => z = VolatileBytes(Reach(Image(1)).keys)

Export == PrintT(ToJson([h |-> hist, m |-> Moves, r |-> Reads]))
=============================================================================
