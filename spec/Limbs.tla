------------------------------- MODULE Limbs -------------------------------
(* Unsigned numbers up to 2^64-1 as four little-endian 16-bit limbs, because  *)
(* TLC's integers are 32-bit signed.  Offsets that matter fit 31 bits, all    *)
(* others are clipped to Big by Int (no hive image is that long).             *)
EXTENDS Integers, Sequences

Big == 2147483647
LZero == <<0, 0, 0, 0>>

LInt(l) == IF l[3] # 0 \/ l[4] # 0 \/ l[2] >= 32768 THEN Big
           ELSE l[2] * 65536 + l[1]

LOf(i) == <<i % 65536, i \div 65536, 0, 0>>

(* limb-wise addition with carry, modulo 2^64 *)
LAdd(l, m) ==
  LET a == l[1] + m[1]
      b == l[2] + m[2] + (a \div 65536)
      c == l[3] + m[3] + (b \div 65536)
      d == l[4] + m[4] + (c \div 65536)
  IN <<a % 65536, b % 65536, c % 65536, d % 65536>>

LAddI(l, i) == LAdd(l, LOf(i))

(* multiplication by a small constant k <= 16344 *)
LMulI(l, k) ==
  LET a == l[1] * k
      b == l[2] * k + (a \div 65536)
      c == l[3] * k + (b \div 65536)
      d == l[4] * k + (c \div 65536)
  IN <<a % 65536, b % 65536, c % 65536, d % 65536>>

(* 2^32 - l for a 32-bit l # 0: the magnitude of a negative i32 *)
LNeg32(l) ==
  IF l[1] = 0 THEN <<0, 65536 - l[2], 0, 0>>
  ELSE <<65536 - l[1], 65535 - l[2], 0, 0>>

LNegative32(l) == l[2] >= 32768

LNil == <<65535, 65535, 0, 0>>

(* what a 32-bit machine reports for a number that does not fit *)
LSat32(l) == IF l[3] # 0 \/ l[4] # 0 THEN LNil ELSE l

(* decimal digits (most significant first), by repeated division *)
LDivMod10(l) ==
  LET a == l[4]
      b == (a % 10) * 65536 + l[3]
      c == (b % 10) * 65536 + l[2]
      d == (c % 10) * 65536 + l[1]
  IN [q |-> <<d \div 10, c \div 10, b \div 10, a \div 10>>, r |-> d % 10]

DigitStr == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>

RECURSIVE LDec(_)
LDec(l) == LET x == LDivMod10(l) IN
           IF x.q = LZero THEN DigitStr[x.r + 1]
           ELSE LDec(x.q) \o DigitStr[x.r + 1]

LHex4(h) == DigitStr[(h \div 4096) + 1] \o DigitStr[((h \div 256) % 16) + 1]
            \o DigitStr[((h \div 16) % 16) + 1] \o DigitStr[(h % 16) + 1]

RECURSIVE LHexMin(_)
LHexMin(h) == IF h < 16 THEN DigitStr[h + 1] ELSE LHexMin(h \div 16) \o DigitStr[(h % 16) + 1]

(* {:#010x}: "0x" and at least eight hex digits *)
LHex10(l) ==
  IF l[4] # 0 THEN "0x" \o LHexMin(l[4]) \o LHex4(l[3]) \o LHex4(l[2]) \o LHex4(l[1])
  ELSE IF l[3] # 0 THEN "0x" \o LHexMin(l[3]) \o LHex4(l[2]) \o LHex4(l[1])
  ELSE "0x" \o LHex4(l[2]) \o LHex4(l[1])
=============================================================================
