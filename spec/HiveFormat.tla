----------------------------- MODULE HiveFormat -----------------------------
(* What the bytes of a hive mean: a pure decoding of the regf format.         *)
(*                                                                            *)
(* An image H is a record                                                     *)
(*   n : length of the buffer in bytes                                        *)
(*   h : the first bytes of the buffer, up to and including the checksum      *)
(*   d : the bytes after the 4096-byte base block (the hive data)             *)
(*   z : set of data positions whose bytes have been cleared to zero          *)
(* Data positions are 0-based; file offset = data position + 4096.            *)
(*                                                                            *)
(* Every decoding operator yields a result record                             *)
(*   [t |-> "ok", v |-> value], [t |-> "none"] or [t |-> "err", es |-> set]   *)
(* where es holds every fault that is present; any of them may be reported.   *)
(* A fault is [k |-> kind, f |-> sequence of fields], fields being limbs      *)
(* (numbers) or byte sequences, in the declaration order of NtHiveError.      *)
EXTENDS Integers, Sequences, FiniteSets, Limbs, Names, Bitwise

BaseBlock == 4096
SegSize == 16344

Ok(v) == [t |-> "ok", v |-> v]
None == [t |-> "none"]
Fail(es) == [t |-> "err", es |-> es]
Fault(k, f) == [k |-> k, f |-> f]
Bad(k, f) == Fail({Fault(k, f)})

DLen(H) == IF H.n >= BaseBlock THEN H.n - BaseBlock ELSE 0
D(H, p) == IF p \in H.z THEN 0 ELSE H.d[p + 1]
U16(H, p) == D(H, p) + 256 * D(H, p + 1)
U32(H, p) == <<U16(H, p), U16(H, p + 2), 0, 0>>
Bytes(H, p, n) == IF H.z = {} THEN SubSeq(H.d, p + 1, p + n) ELSE [i \in 1..n |-> D(H, p + i - 1)]
FileOff(p) == LOf(p + BaseBlock)
FileOffL(l) == LAddI(l, BaseBlock)

(* ------------------------------ base block ------------------------------- *)
H16(H, p) == H.h[p + 1] + 256 * H.h[p + 2]
H32(H, p) == <<H16(H, p), H16(H, p + 2), 0, 0>>

Major(H) == H32(H, 20)
Minor(H) == H32(H, 24)

SigRegf == <<114, 101, 103, 102>>

(* XOR of the first 127 dwords; 0 becomes 1 and 0xFFFFFFFF becomes 0xFFFFFFFE *)
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], 0, 0>>
CalcChecksum(H) ==
  LET x == FoldLeft(LAMBDA a, i : Xor32(a, H32(H, 4 * (i - 1))), LZero, [i \in 1..127 |-> i])
  IN IF x = LZero THEN LOf(1) ELSE IF x = LNil THEN <<65534, 65535, 0, 0>> ELSE x

(* every requirement that fails *)
HeaderFaults(H) ==
  LET sig == SubSeq(H.h, 1, 4)
      prim == H32(H, 4)   sec == H32(H, 8)
      type == H32(H, 28)  form == H32(H, 32)
      size == H32(H, 40)  clus == H32(H, 44)
      calc == CalcChecksum(H)   stored == H32(H, 508)
  IN (IF sig # SigRegf THEN {Fault("InvalidFourByteSignature", <<LZero, SigRegf, sig>>)} ELSE {})
  \cup (IF prim # sec THEN {Fault("SequenceNumberMismatch", <<prim, sec>>)} ELSE {})
  \cup (IF Major(H) # LOf(1) \/ LInt(Minor(H)) < 3
        THEN {Fault("UnsupportedVersion", <<Major(H), Minor(H)>>)} ELSE {})
  \cup (IF type # LZero THEN {Fault("UnsupportedFileType", <<LZero, type>>)} ELSE {})
  \cup (IF form # LOf(1) THEN {Fault("UnsupportedFileFormat", <<LOf(1), form>>)} ELSE {})
  \cup (IF size[1] % 4096 # 0
        THEN {Fault("InvalidSizeFieldAlignment", <<LOf(40), size, LOf(4096)>>)} ELSE {})
  \cup (IF LInt(size) > DLen(H)
        THEN {Fault("InvalidSizeField", <<LOf(40), size, LOf(DLen(H))>>)} ELSE {})
  \cup (IF clus # LOf(1) THEN {Fault("UnsupportedClusteringFactor", <<LOf(1), clus>>)} ELSE {})
  \cup (IF calc # stored THEN {Fault("InvalidChecksum", <<calc, stored>>)} ELSE {})

Version(H) == [maj |-> Major(H), min |-> Minor(H)]

(* minor versions 0 to 6 are known by name (Windows NT 3.1 Beta to Windows Vista) *)
KnownMinor(l) == LInt(l) <= 6

OpenRaw(H) == IF H.n < BaseBlock
              THEN Bad("InvalidHeaderSize", <<LZero, LOf(BaseBlock), LOf(H.n)>>)
              ELSE Ok(Version(H))

Validate(H) == LET fs == HeaderFaults(H) IN IF fs = {} THEN Ok(0) ELSE Fail(fs)

OpenValidated(H) == IF H.n < BaseBlock THEN OpenRaw(H)
                    ELSE IF HeaderFaults(H) = {} THEN Ok(Version(H))
                    ELSE Fail(HeaderFaults(H))

(* --------------------------------- cells --------------------------------- *)
(* A cell is a 4-byte size (negative: allocated) and a body.  A reference is  *)
(* followed only to an allocated, 8-aligned cell wholly inside the hive data. *)
(* The result is the body [b, e).                                             *)
Cell(H, l) ==
  LET o == LInt(l)
      n == DLen(H)
  IN IF o > n - 4
     THEN Bad("InvalidHeaderSize", <<FileOffL(l), LOf(4), LOf(IF o > n THEN 0 ELSE n - o)>>)
     ELSE
     LET s == U32(H, o)
     IN IF ~LNegative32(s)
        THEN Bad("UnallocatedCell", <<FileOffL(l), s>>)
        ELSE
        LET size == LNeg32(s)          \* magnitude, at least 1
            body == LAdd(size, <<65532, 65535, 65535, 65535>>)    \* size - 4
            es == (IF size[1] % 8 # 0
                   THEN {Fault("InvalidSizeFieldAlignment", <<FileOffL(l), size, LOf(8)>>)} ELSE {})
                  \cup
                  (IF LInt(size) > n - o
                   THEN {Fault("InvalidSizeField", <<FileOffL(l), body, LOf(n - o - 4)>>)} ELSE {})
        IN IF es # {} THEN Fail(es)
           ELSE Ok([b |-> o + 4, e |-> o + LInt(size)])

CLen(c) == c.e - c.b

(* a structure with a two-byte signature at the start of a cell body *)
Struct(H, l, size, sig) ==
  LET c == Cell(H, l)
  IN IF c.t # "ok" THEN c
     ELSE IF CLen(c.v) < size
     THEN Bad("InvalidHeaderSize", <<FileOff(c.v.b), LOf(size), LOf(CLen(c.v))>>)
     ELSE IF Bytes(H, c.v.b, 2) # sig
     THEN Bad("InvalidTwoByteSignature", <<FileOff(c.v.b), sig, Bytes(H, c.v.b, 2)>>)
     ELSE c

SigNk == <<110, 107>>
SigVk == <<118, 107>>
SigDb == <<100, 98>>
SigLf == <<108, 102>>
SigLh == <<108, 104>>
SigLi == <<108, 105>>
SigRi == <<114, 105>>
LeafSigs == {SigLf, SigLh, SigLi}
ExpAnyList == <<108,102,124,108,104,124,108,105,124,114,105>>   \* lf|lh|li|ri
ExpLeaf == <<108,102,124,108,104,124,108,105>>                  \* lf|lh|li

(* ------------------------------- key nodes ------------------------------- *)
NkSize == 76
KeyAt(H, l) == Struct(H, l, NkSize, SigNk)
RootKey(H) == KeyAt(H, H32(H, 36))

(* A name is [enc, p, len]: encoding, data position and byte length. *)
NameIn(H, cell, hdr, lenfield, compressed) ==
  LET len == U16(H, cell.b + lenfield)
      room == CLen(cell) - hdr
  IN IF len > room
     THEN Bad("InvalidSizeField", <<FileOff(cell.b + lenfield), LOf(len), LOf(room)>>)
     ELSE Ok([enc |-> IF compressed THEN "L" ELSE "U", p |-> cell.b + hdr, len |-> len])

KeyFlags(H, k) == U16(H, k.b + 2)
KeyName(H, k) == NameIn(H, k, NkSize, 72, (KeyFlags(H, k) \div 32) % 2 = 1)

ClassName(H, k) ==
  LET off == U32(H, k.b + 48)
      len == U16(H, k.b + 74)
  IN IF off = LNil THEN None
     ELSE LET c == Cell(H, off)
          IN IF c.t # "ok" THEN c
             ELSE IF len > CLen(c.v)
             THEN Bad("InvalidSizeField", <<FileOff(k.b + 74), LOf(len), LOf(CLen(c.v))>>)
             ELSE Ok([enc |-> "U", p |-> c.v.b, len |-> len])

(* the UTF-16 code units of a name; an odd last byte is ignored *)
Units(H, nm) ==
  IF nm.enc = "L" THEN [i \in 1..nm.len |-> D(H, nm.p + i - 1)]
  ELSE [i \in 1..(nm.len \div 2) |-> U16(H, nm.p + 2 * (i - 1))]

NUnits(nm) == IF nm.enc = "L" THEN nm.len ELSE nm.len \div 2

(* name comparison with a length filter first, so that long lists stay cheap *)
NameIs(H, nm, q) == NUnits(nm) = Len(q) /\ SameName(Units(H, nm), q)

(* ------------------------------ subkeys lists ---------------------------- *)
Stride(sig) == IF sig = SigLi \/ sig = SigRi THEN 4 ELSE 8

ListIn(H, l, sigs, expected, minone) ==
  LET c == Cell(H, l)
  IN IF c.t # "ok" THEN c
     ELSE IF CLen(c.v) < 4
     THEN Bad("InvalidHeaderSize", <<FileOff(c.v.b), LOf(4), LOf(CLen(c.v))>>)
     ELSE
     LET sig == Bytes(H, c.v.b, 2)
         count == U16(H, c.v.b + 2)
         room == CLen(c.v) - 4
     IN IF sig \notin sigs
        THEN Bad("InvalidTwoByteSignature", <<FileOff(c.v.b), expected, sig>>)
        ELSE IF minone /\ count = 0
        THEN Bad("InvalidSizeField", <<FileOff(c.v.b + 2), LOf(1), LZero>>)
        ELSE IF count * Stride(sig) > room
        THEN Bad("InvalidSizeField", <<FileOff(c.v.b + 2), LOf(count * Stride(sig)), LOf(room)>>)
        ELSE Ok([form |-> IF sig = SigRi THEN "root" ELSE "leaf",
                 p |-> c.v.b + 4, n |-> count, s |-> Stride(sig)])

SubkeysList(H, k) ==
  LET off == U32(H, k.b + 28)
  IN IF off = LNil THEN None ELSE ListIn(H, off, LeafSigs \cup {SigRi}, ExpAnyList, FALSE)

(* the leaf an index root item refers to: no nested roots, at least one item *)
LeafOf(H, p) == ListIn(H, U32(H, p), LeafSigs, ExpLeaf, TRUE)

(* Elements of a list, 0-based: an unreadable leaf counts as one faulty element. *)
LeafItems(f) == IF f.t = "ok" THEN f.v.n ELSE 1
Leaves(L) == [j \in 1..L.n |-> L.p + 4 * (j - 1)]
RootCount(H, L) == FoldLeft(LAMBDA n, p : n + LeafItems(LeafOf(H, p)), 0, Leaves(L))

ElemCount(H, L) == IF L.form = "leaf" THEN L.n ELSE RootCount(H, L)

(* the leaf where item i of the root lies, and its place there *)
RootElem(H, L, i) ==
  LET at == FoldLeft(LAMBDA a, p : IF a.p # -1 THEN a
                                   ELSE LET n == LeafItems(LeafOf(H, p))
                                        IN IF a.i < n THEN [i |-> a.i, p |-> p] ELSE [i |-> a.i - n, p |-> -1],
                     [i |-> i, p |-> -1], Leaves(L))
      f == LeafOf(H, at.p)
  IN IF f.t = "ok" THEN KeyAt(H, U32(H, f.v.p + f.v.s * at.i)) ELSE f

(* i-th subkey (0-based), a key or the error in its place *)
Elem(H, L, i) == IF L.form = "leaf" THEN KeyAt(H, U32(H, L.p + L.s * i)) ELSE RootElem(H, L, i)

(* all elements at once *)
LeafElems(H, f) == [i \in 1..f.n |-> KeyAt(H, U32(H, f.p + f.s * (i - 1)))]
RECURSIVE RootElems(_, _, _, _)
RootElems(H, L, a, b) ==
  IF a >= b THEN <<>>
  ELSE IF b - a > 1
  THEN LET m == (a + b) \div 2 IN RootElems(H, L, a, m) \o RootElems(H, L, m, b)
  ELSE LET f == LeafOf(H, L.p + 4 * a)
       IN IF f.t = "ok" THEN LeafElems(H, f.v) ELSE <<f>>
Elems(H, L) == IF L.form = "leaf" THEN LeafElems(H, L) ELSE RootElems(H, L, 0, L.n)

(* The set of admissible results of looking up q (code units) in the list.    *)
(*  - a result key is listed and carries the name;                            *)
(*  - on a clean list in ascending order, nothing is found only if no listed   *)
(*    key matches;                                                            *)
(*  - an error must be one that is present in the list.                       *)
ListNames(H, es) == [i \in 1..Len(es) |-> IF es[i].t = "ok" THEN KeyName(H, es[i].v) ELSE es[i]]
ListFaults(es, ns) == UNION {IF es[i].t = "err" THEN es[i].es ELSE IF ns[i].t = "err" THEN ns[i].es ELSE {}
                             : i \in 1..Len(es)}
Ascending(H, ns) == \A i \in 1..(Len(ns) - 1) : Cmp(Units(H, ns[i].v), Units(H, ns[i + 1].v)) <= 0

Matches(H, es, ns, q) == {es[i].v : i \in {j \in 1..Len(es) : ns[j].t = "ok" /\ NameIs(H, ns[j].v, q)}}

LookupIn(H, L, q) ==
  LET es == Elems(H, L)
      ns == ListNames(H, es)
      m == Matches(H, es, ns, q)
      faults == ListFaults(es, ns)
      mayMiss == m = {} \/ faults # {} \/ ~Ascending(H, ns)
  IN {Ok(k) : k \in m}
     \cup (IF mayMiss THEN {None} ELSE {})
     \cup (IF faults # {} THEN {Fail(faults)} ELSE {})

Lookup(H, k, q) ==
  LET L == SubkeysList(H, k)
  IN IF L.t = "ok" THEN LookupIn(H, L.v, q) ELSE {L}

(* A path is the successive lookup of its non-empty components. *)
Path(H, k, q) ==
  FoldLeft(LAMBDA rs, c : UNION {IF r.t = "ok" THEN Lookup(H, r.v, c) ELSE {r} : r \in rs}, {Ok(k)}, Components(q))

(* --------------------------------- values -------------------------------- *)
VkSize == 20
ValueAt(H, l) == Struct(H, l, VkSize, SigVk)

ValueList(H, k) ==
  LET off == U32(H, k.b + 40)
      count == U32(H, k.b + 36)
  IN IF off = LNil THEN None
     ELSE LET c == Cell(H, off)
          IN IF c.t # "ok" THEN c
             ELSE IF LInt(LMulI(count, 4)) > CLen(c.v)
             THEN Bad("InvalidSizeField", <<FileOff(k.b + 36), LMulI(count, 4), LOf(CLen(c.v))>>)
             ELSE Ok([p |-> c.v.b, n |-> LInt(count)])

ValueElem(H, L, i) == ValueAt(H, U32(H, L.p + 4 * i))
ValueName(H, v) == NameIn(H, v, VkSize, 2, U16(H, v.b + 16) % 2 = 1)

Ceil(a, b) == (a + b - 1) \div b

(* the first value in stored order that carries the name, or the first error before it *)
ValueStop(H, L, i, q) ==
  LET v == ValueElem(H, L, i)
  IN IF v.t # "ok" THEN v
     ELSE LET nm == ValueName(H, v.v)
          IN IF nm.t # "ok" THEN nm ELSE IF NameIs(H, nm.v, q) THEN v ELSE None
ValueBlock(H, L, i, q) ==      \* among the values i .. i + 63
  LET hi == IF i + 63 >= L.n THEN L.n - 1 ELSE i + 63
      Ends(j) == ValueStop(H, L, j, q).t # "none"
  IN IF \E j \in i..hi : Ends(j)
     THEN ValueStop(H, L, CHOOSE j \in i..hi : Ends(j) /\ \A m \in i..(j - 1) : ~Ends(m), q)
     ELSE None
ValueFrom(H, L, q) ==
  FoldLeft(LAMBDA r, b : IF r.t # "none" THEN r ELSE ValueBlock(H, L, 64 * (b - 1), q), None, [b \in 1..Ceil(L.n, 64) |-> b])

ValueLookup(H, k, q) ==
  LET L == ValueList(H, k) IN IF L.t # "ok" THEN L ELSE ValueFrom(H, L.v, q)

(* ------------------------------- value data ------------------------------ *)
TypeCode(H, v) == U32(H, v.b + 12)
DataType(H, v) == IF LInt(TypeCode(H, v)) > 11
                  THEN Bad("UnsupportedKeyValueDataType", <<FileOff(v.b + 12), TypeCode(H, v)>>)
                  ELSE Ok(LInt(TypeCode(H, v)))

Inline(H, v) == LNegative32(U32(H, v.b + 4))
DataSize(H, v) == LET s == U32(H, v.b + 4) IN <<s[1], s[2] % 32768, 0, 0>>

BigDataSupported(H) == LInt(Minor(H)) >= 4

(* [form |-> "small", p, n]  or  [form |-> "big", p (segment list), size] *)
Data(H, v) ==
  LET size == LInt(DataSize(H, v))
      szl == DataSize(H, v)
  IN IF Inline(H, v)
     THEN IF size > 4
          THEN Bad("InvalidSizeField", <<FileOff(v.b + 4), szl, LOf(4)>>)
          ELSE Ok([form |-> "small", p |-> v.b + 8, n |-> size])
     ELSE LET c == Cell(H, U32(H, v.b + 8))
     IN IF c.t # "ok" THEN c
     ELSE IF size <= SegSize \/ ~BigDataSupported(H)
     THEN IF CLen(c.v) < size
          THEN Bad("InvalidDataSize", <<FileOff(c.v.b), szl, LOf(CLen(c.v))>>)
          ELSE Ok([form |-> "small", p |-> c.v.b, n |-> size])
     ELSE IF CLen(c.v) < 8
     THEN Bad("InvalidHeaderSize", <<FileOff(c.v.b), LOf(8), LOf(CLen(c.v))>>)
     ELSE LET sig == Bytes(H, c.v.b, 2)
              count == U16(H, c.v.b + 2)
              list == Cell(H, U32(H, c.v.b + 4))
              es == (IF sig # SigDb
                     THEN {Fault("InvalidTwoByteSignature", <<FileOff(c.v.b), SigDb, sig>>)} ELSE {})
                 \cup (IF size > count * SegSize
                       THEN {Fault("InvalidSizeField", <<FileOff(v.b + 4), szl, LOf(count * SegSize)>>)} ELSE {})
                 \cup (IF list.t # "ok" THEN list.es
                       ELSE IF count * 4 > CLen(list.v)
                       THEN {Fault("InvalidSizeField", <<FileOff(c.v.b + 2), LOf(count * 4), LOf(CLen(list.v))>>)}
                       ELSE {})
          IN IF es # {} THEN Fail(es)
             ELSE Ok([form |-> "big", p |-> list.v.b, n |-> size])

SegCount(d) == Ceil(d.n, SegSize)

(* the i-th contributing segment, 0-based: a slice [p, n] *)
Segment(H, d, i) ==
  LET want == IF d.n - i * SegSize < SegSize THEN d.n - i * SegSize ELSE SegSize
      c == Cell(H, U32(H, d.p + 4 * i))
  IN IF c.t # "ok" THEN c
     ELSE IF CLen(c.v) < want
     THEN Bad("InvalidDataSize", <<FileOff(c.v.b), LOf(want), LOf(CLen(c.v))>>)
     ELSE Ok([p |-> c.v.b, n |-> want])

(* the readable prefix of the data as code units, and the fault that ends it *)
RECURSIVE SegUnits(_, _, _)
SegUnits(H, d, i) ==
  IF i >= SegCount(d) THEN [u |-> <<>>, r |-> None]
  ELSE LET s == Segment(H, d, i)
       IN IF s.t # "ok" THEN [u |-> <<>>, r |-> s]
          ELSE LET rest == SegUnits(H, d, i + 1)
               IN [u |-> [j \in 1..(s.v.n \div 2) |-> U16(H, s.v.p + 2 * (j - 1))] \o rest.u, r |-> rest.r]
DecodedUnits(H, d) ==
  IF d.form = "small"
  THEN [u |-> [j \in 1..(d.n \div 2) |-> U16(H, d.p + 2 * (j - 1))], r |-> None]
  ELSE SegUnits(H, d, 0)
DataUnits(H, d) == DecodedUnits(H, d)

(* all bytes *)
RECURSIVE SegBytes(_, _, _)
SegBytes(H, d, i) ==
  IF i >= SegCount(d) THEN Ok(<<>>)
  ELSE LET s == Segment(H, d, i)
       IN IF s.t # "ok" THEN s
          ELSE LET rest == SegBytes(H, d, i + 1)
               IN IF rest.t # "ok" THEN Fail(rest.es) ELSE Ok(Bytes(H, s.v.p, s.v.n) \o rest.v)
AllBytes(H, v) ==
  LET d == Data(H, v)
  IN IF d.t # "ok" THEN d
     ELSE IF d.v.form = "small" THEN Ok(Bytes(H, d.v.p, d.v.n))
     ELSE SegBytes(H, d.v, 0)

(* ------------------------------ typed access ----------------------------- *)
WrongType(expected, actual) == Fault("InvalidKeyValueDataType", <<expected, <<actual>>>>)
TypeFaults(H, v, expected) ==
  LET ty == DataType(H, v)
  IN IF ty.t # "ok" THEN ty.es
     ELSE IF \E i \in 1..Len(expected) : expected[i] = ty.v THEN {}
     ELSE {WrongType(expected, ty.v)}

DataPos(H, v, d) == IF d.form = "small" THEN FileOff(d.p) ELSE FileOffL(U32(H, v.b + 8))
SizeFaults(H, v, d, want) ==
  IF d.n # want THEN {Fault("InvalidDataSize", <<DataPos(H, v, d), LOf(want), LOf(d.n)>>)} ELSE {}

Integer(H, v, want, types, Decode(_)) ==
  LET d == Data(H, v)
      es == (IF d.t # "ok" THEN d.es ELSE SizeFaults(H, v, d.v, want)) \cup TypeFaults(H, v, types)
  IN IF es # {} THEN Fail(es) ELSE Ok(Decode(d.v.p))

LE16(H, p) == D(H, p) + 256 * D(H, p + 1)
BE16(H, p) == D(H, p + 1) + 256 * D(H, p)

DWord(H, v) ==
  Integer(H, v, 4, <<4, 5>>,
    LAMBDA p : IF DataType(H, v).v = 4 THEN <<LE16(H, p), LE16(H, p + 2), 0, 0>>
               ELSE <<BE16(H, p + 2), BE16(H, p), 0, 0>>)

QWord(H, v) ==
  Integer(H, v, 8, <<11>>,
    LAMBDA p : <<LE16(H, p), LE16(H, p + 2), LE16(H, p + 4), LE16(H, p + 6)>>)

(* REG_SZ / REG_EXPAND_SZ: the text before the first NUL; an unreadable       *)
(* segment matters only if the text reaches it                                *)
Text(H, v) ==
  LET tf == TypeFaults(H, v, <<1, 2>>)
      d == Data(H, v)
  IN IF d.t # "ok" THEN Fail(d.es \cup tf)
     ELSE IF tf # {} THEN Fail(tf)
     ELSE LET du == DataUnits(H, d.v)
              text == UpToNul(du.u)
          IN IF du.r.t = "err" /\ Len(text) = Len(du.u) THEN Fail(du.r.es)
             ELSE Ok(Lossy(text))

MultiOpen(H, v) ==
  LET tf == TypeFaults(H, v, <<7>>)
      d == Data(H, v)
  IN IF d.t # "ok" THEN Fail(d.es \cup tf)
     ELSE IF tf # {} THEN Fail(tf)
     ELSE d

(* The string starting at unit position pos (1-based) of the decoded data du: *)
(* a result for the caller and the position of the next string (0: the end,   *)
(* -1: an unreadable segment was reached).                                    *)
MultiAt(du, pos) ==
  LET stop == NulFrom(du.u, pos)
      s == SubSeq(du.u, pos, stop - 1)
  IN IF stop > Len(du.u) /\ du.r.t = "err" THEN [r |-> du.r, pos |-> -1]
     ELSE IF s = <<>> THEN [r |-> None, pos |-> 0]
     ELSE [r |-> Ok(Lossy(s)), pos |-> stop + 1]

(* --------------------------- the tree of keys ---------------------------- *)
(* Every key reachable from the root through subkeys lists, and every fault   *)
(* met on the way (a faulty element has no keys below it).                    *)
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(H, todo, seen, faults) ==
  IF todo = {} THEN [keys |-> seen, es |-> faults]
  ELSE LET next == {IF L.t # "ok" THEN [ks |-> {}, es |-> IF L.t = "err" THEN L.es ELSE {}]
                    ELSE LET es == Elems(H, L.v)
                         IN [ks |-> {es[i].v : i \in {j \in 1..Len(es) : es[j].t = "ok"}},
                             es |-> UNION {IF es[i].t = "err" THEN es[i].es ELSE {} : i \in 1..Len(es)}]
                    : L \in {SubkeysList(H, k) : k \in todo}}
           found == UNION {x.ks : x \in next}
       IN ReachFrom(H, found \ (seen \cup todo), seen \cup todo, faults \cup UNION {x.es : x \in next})

Reach(H) ==
  LET r == RootKey(H)
  IN IF r.t # "ok" THEN [keys |-> {}, es |-> r.es] ELSE ReachFrom(H, {r.v}, {}, {})

VolatileBytes(keys) == UNION {(k.b + 24)..(k.b + 27) : k \in keys}
=============================================================================
