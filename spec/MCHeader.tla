------------------------------- MODULE MCHeader -------------------------------
(* Header validation (C02) as the reader does it - one check after the other, *)
(* the first failing one being reported - against the contract: acceptance    *)
(* exactly when no requirement fails, and an error that names one that does.  *)
(*                                                                            *)
(* Init builds every header with at most two deviating fields, each of the    *)
(* interesting kinds of deviation, every checksum mode, and every short       *)
(* buffer; the bytes are built here, so that the checksum is HiveFormat's.    *)
(* Each finished behaviour is printed and replayed into the real reader.      *)
EXTENDS HiveFormat, TLC, Json

CONSTANTS
  DataLen,      \* bytes after the base block
  Pairs,        \* TRUE: also two deviating fields
  Junk          \* which filling of the bytes without a meaning

L32(hi, lo) == <<lo, hi, 0, 0>>
AllOnes == L32(65535, 65535)
Top == L32(32768, 0)

(* the deviations of a 32-bit field whose right value is v *)
Near(v) == {LAddI(v, 1), <<v[1], v[2] + 256, 0, 0>>, <<v[1], v[2] + 1, 0, 0>>, <<v[1] + 256, v[2], 0, 0>>, AllOnes, <<v[1], v[2] + 32768, 0, 0>>}
           \cup (IF v[1] > 0 THEN {LOf(v[1] - 1)} ELSE {})

Sigs == {<<114, 101, 103, 103>>, <<82, 101, 103, 102>>, <<114, 69, 103, 102>>, <<114, 101, 71, 102>>, <<0, 0, 0, 0>>,
         <<102, 103, 101, 114>>, <<114, 101, 103, 0>>, <<104, 98, 105, 110>>}
SeqPairs ==     \* unequal ones first, then equal extremes
  {<<LOf(1), LOf(2)>>, <<LOf(2), LOf(1)>>, <<LOf(0), LOf(1)>>, <<LOf(1), L32(1, 1)>>, <<L32(1, 1), LOf(1)>>, <<LOf(1), L32(256, 1)>>,
   <<LOf(0), AllOnes>>, <<AllOnes, LOf(0)>>, <<Top, LOf(0)>>, <<LOf(0), Top>>, <<LOf(256), LOf(1)>>, <<AllOnes, L32(32767, 65535)>>,
   <<LOf(0), LOf(0)>>, <<AllOnes, AllOnes>>, <<Top, Top>>, <<L32(1, 0), L32(1, 0)>>, <<LOf(7), LOf(7)>>, <<LOf(65535), LOf(65535)>>}
Minors == {LOf(0), LOf(1), LOf(2), LOf(3), LOf(4), LOf(6), LOf(7), LOf(258), L32(1, 2), L32(32768, 2), L32(32768, 3), AllOnes, L32(1, 0), L32(255, 0)}
Full == (DataLen \div 4096) * 4096
Sizes == {LOf(0), LOf(1), LOf(512), LOf(4095), LOf(4096), LOf(4097), LOf(2048), LOf(Full - 4096), LOf(Full + 4096), LOf(Full + 1), LOf(Full - 1),
          LOf(Full + 8), LOf(DataLen), L32(65535, 61440), L32(32768, 0), L32(1, 0), L32(256, 0), L32(65535, 65535), L32(32767, 61440),
          LOf(Full + 65536)}

(* name -> set of deviating values *)
Deviate ==
  [sig |-> Sigs, seq |-> SeqPairs, maj |-> Near(LOf(1)), min |-> Minors, type |-> Near(LOf(0)) \cup {LOf(2)}, fmt |-> Near(LOf(1)),
   size |-> Sizes, clus |-> Near(LOf(1))]
Fields == DOMAIN Deviate
Right == [sig |-> SigRegf, seq |-> <<LOf(9), LOf(9)>>, maj |-> LOf(1), min |-> LOf(5), type |-> LOf(0), fmt |-> LOf(1),
          size |-> LOf(Full), clus |-> LOf(1)]

(* what is stored as the checksum, x being the right one *)
Sums == {"right", "bit0", "bit7", "bit8", "bit15", "bit16", "bit24", "bit31", "zero", "ones", "onesless", "one", "swap", "halves", "plain"}
(* what the XOR of the 127 dwords comes out as (a byte without meaning is     *)
(* adjusted): "free" leaves it as it is                                       *)
Xors == {"free", "zero", "ones", "one", "onesless", "low", "high"}
XorOf(x) == CASE x = "zero" -> LZero [] x = "ones" -> AllOnes [] x = "one" -> LOf(1) [] x = "onesless" -> L32(65535, 65534)
              [] x = "low" -> LOf(65535) [] x = "high" -> L32(65535, 0)

VARIABLES f, sum, xr, total, flip, hdr, pc, verdict
vars == <<f, sum, xr, total, flip, hdr, pc, verdict>>

(* ------------------------------- the bytes ------------------------------- *)
B4(l) == <<l[1] % 256, l[1] \div 256, l[2] % 256, l[2] \div 256>>
Filling(i) == (i * 7 + Junk * 13 + (i \div 16) * Junk) % 256
Splice(h, p, b) == [i \in 1..Len(h) |-> IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE h[i]]
PlainXor(h) == FoldLeft(LAMBDA a, i : Xor32(a, <<h[4 * i - 3] + 256 * h[4 * i - 2], h[4 * i - 1] + 256 * h[4 * i], 0, 0>>), LZero,
                        [i \in 1..127 |-> i])
Without ==
  LET blank == [i \in 1..512 |-> Filling(i)]
      all == f.sig \o B4(f.seq[1]) \o B4(f.seq[2]) \o SubSeq(blank, 13, 20) \o B4(f.maj) \o B4(f.min) \o B4(f.type) \o B4(f.fmt)
             \o SubSeq(blank, 37, 40) \o B4(f.size) \o B4(f.clus) \o SubSeq(blank, 49, 508) \o <<0, 0, 0, 0>>
  IN IF xr = "free" THEN all
     ELSE LET zeroed == Splice(all, 300, <<0, 0, 0, 0>>)
          IN Splice(zeroed, 300, B4(Xor32(PlainXor(zeroed), XorOf(xr))))
Stored(h) ==
  LET c == CalcChecksum([h |-> h])
      x == PlainXor(h)
  IN CASE sum = "right" -> c
       [] sum = "bit0" -> Xor32(c, LOf(1)) [] sum = "bit7" -> Xor32(c, LOf(128)) [] sum = "bit8" -> Xor32(c, LOf(256))
       [] sum = "bit15" -> Xor32(c, LOf(32768)) [] sum = "bit16" -> Xor32(c, L32(1, 0)) [] sum = "bit24" -> Xor32(c, L32(256, 0))
       [] sum = "bit31" -> Xor32(c, Top)
       [] sum = "zero" -> LZero [] sum = "ones" -> AllOnes [] sum = "one" -> LOf(1) [] sum = "onesless" -> L32(65535, 65534)
       [] sum = "swap" -> <<c[2], c[1], 0, 0>>
       [] sum = "halves" -> <<(c[1] % 256) * 256 + c[1] \div 256, (c[2] % 256) * 256 + c[2] \div 256, 0, 0>>
       [] sum = "plain" -> x
(* flip: a byte that is damaged after the checksum was stored, or none *)
Flipped(h) == IF flip < 0 THEN h ELSE Splice(h, flip, <<(h[flip + 1] + 16) % 256>>)
Header == \* the bytes of the case at hand
  LET h == Without IN Flipped(Splice(h, 508, B4(Stored(h))))
Img == [n |-> total, h |-> hdr, d |-> <<>>, z |-> {}]

(* -------------------------- the reader, stepwise -------------------------- *)
One == UNION {{[Right EXCEPT ![a] = v] : v \in Deviate[a]} : a \in Fields}
Rank == [sig |-> 1, seq |-> 2, maj |-> 3, min |-> 4, type |-> 5, fmt |-> 6, size |-> 7, clus |-> 8]
Shorts == {0, 1, 3, 4, 5, 48, 508, 511, 512, 513, 4088, 4095, 4096, 4097, 4100, 8191, 8192, 8193, 4096 + DataLen - 1}

Init ==
  /\ pc = "open" /\ verdict = "?"
  /\ \/ f \in One \cup {Right} /\ sum \in {"right", "bit8"} /\ xr = "free" /\ total = 4096 + DataLen
     \/ f = Right /\ sum \in Sums /\ xr \in Xors /\ total = 4096 + DataLen
     \/ f \in {Right, [Right EXCEPT !.size = LOf(0)], [Right EXCEPT !.size = LOf(4096)]} /\ sum = "right" /\ xr = "free" /\ total \in Shorts
     \/ /\ Pairs
        /\ \E a, b \in Fields : Rank[a] < Rank[b] /\ \E v \in Deviate[a], w \in Deviate[b] : f = [Right EXCEPT ![a] = v, ![b] = w]
        /\ sum = "right" /\ xr = "free" /\ total = 4096 + DataLen
  /\ flip \in {-1} \cup {4 * i + (i % 4) : i \in 0..127}
  /\ flip # -1 => f = Right /\ sum = "right" /\ xr = "free" /\ total = 4096 + DataLen
  /\ hdr = Header

Check(here, next, ok, kind) ==
  /\ pc = here
  /\ IF ok THEN pc' = next /\ UNCHANGED verdict ELSE pc' = "done" /\ verdict' = kind
  /\ UNCHANGED <<f, sum, xr, total, flip, hdr>>

(* the reader reads the fields from the bytes *)
Field(p) == H32([h |-> hdr], p)

Next ==
  \/ Check("open", "sig", total >= BaseBlock, "InvalidHeaderSize")
  \/ Check("sig", "seq", SubSeq(hdr, 1, 4) = SigRegf, "InvalidFourByteSignature")
  \/ Check("seq", "ver", Field(4) = Field(8), "SequenceNumberMismatch")
  \/ Check("ver", "type", Field(20) = LOf(1) /\ LInt(Field(24)) >= 3, "UnsupportedVersion")
  \/ Check("type", "fmt", Field(28) = LZero, "UnsupportedFileType")
  \/ Check("fmt", "align", Field(32) = LOf(1), "UnsupportedFileFormat")
  \/ Check("align", "size", Field(40)[1] % 4096 = 0, "InvalidSizeFieldAlignment")
  \/ Check("size", "clus", LInt(Field(40)) <= total - BaseBlock, "InvalidSizeField")
  \/ Check("clus", "sum", Field(44) = LOf(1), "UnsupportedClusteringFactor")
  \/ Check("sum", "accept", CalcChecksum([h |-> hdr]) = H32([h |-> hdr], 508), "InvalidChecksum")
  \/ Check("accept", "done", FALSE, "ok")

Spec == Init /\ [][Next]_vars

(* --------------------------------- contract ------------------------------- *)
Done == pc = "done"
AcceptsExactly == Done => ((verdict = "ok") <=> OpenValidated(Img).t = "ok")
NamesAFault == (Done /\ verdict # "ok") => \E x \in OpenValidated(Img).es : x.k = verdict
(* the checksum is never 0 or 0xFFFFFFFF: such a stored one never matches *)
NeverTrivialSum == CalcChecksum([h |-> hdr]) \notin {LZero, AllOnes}

Export == Done => PrintT(ToJson([v |-> verdict, n |-> total, h |-> hdr]))
===============================================================================
