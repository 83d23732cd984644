------------------------------ MODULE Messages ------------------------------
(* The fixed wording of every error, with the values of the fault filled in.  *)
EXTENDS Integers, Sequences, Limbs

RECURSIVE JoinS(_, _)
JoinS(ss, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o ", " \o JoinS(ss, i + 1)
Dbg(bytes) == "[" \o JoinS([i \in 1..Len(bytes) |-> LDec(LOf(bytes[i]))], 1) \o "]"

TypeNames == <<"RegNone", "RegSZ", "RegExpandSZ", "RegBinary", "RegDWord", "RegDWordBigEndian", "RegLink",
               "RegMultiSZ", "RegResourceList", "RegFullResourceDescriptor", "RegResourceRequirementsList", "RegQWord">>
Types(ts) == "[" \o JoinS([i \in 1..Len(ts) |-> TypeNames[ts[i] + 1]], 1) \o "]"

Message(x) ==
  LET f == x.f IN
  CASE x.k = "InvalidChecksum" ->
         "The checksum in the base block should be " \o LDec(f[1]) \o ", but it is " \o LDec(f[2])
    [] x.k = "InvalidDataSize" ->
         "The data at offset " \o LHex10(f[1]) \o " should have a size of " \o LDec(f[2])
         \o " bytes, but it only has " \o LDec(f[3]) \o " bytes"
    [] x.k = "InvalidFourByteSignature" ->
         "The 4-byte signature field at offset " \o LHex10(f[1]) \o " should contain " \o Dbg(f[2])
         \o ", but it contains " \o Dbg(f[3])
    [] x.k = "InvalidHeaderSize" ->
         "The struct at offset " \o LHex10(f[1]) \o " should have a size of " \o LDec(f[2])
         \o " bytes, but only " \o LDec(f[3]) \o " bytes are left in the slice"
    [] x.k = "InvalidKeyValueDataType" ->
         "Expected one of the key value data types " \o Types(f[1]) \o ", but found " \o TypeNames[f[2][1] + 1]
    [] x.k = "InvalidSizeField" ->
         "The size field at offset " \o LHex10(f[1]) \o " specifies " \o LDec(f[2])
         \o " bytes, but only " \o LDec(f[3]) \o " bytes are left in the slice"
    [] x.k = "InvalidSizeFieldAlignment" ->
         "The size field at offset " \o LHex10(f[1]) \o " specifies " \o LDec(f[2])
         \o " bytes, but they are not aligned to the expected " \o LDec(f[3]) \o " bytes"
    [] x.k = "InvalidTwoByteSignature" ->
         "The 2-byte signature field at offset " \o LHex10(f[1]) \o " should contain " \o Dbg(f[2])
         \o ", but it contains " \o Dbg(f[3])
    [] x.k = "SequenceNumberMismatch" ->
         "The sequence numbers in the base block do not match (" \o LDec(f[1]) \o " != " \o LDec(f[2]) \o ")"
    [] x.k = "UnallocatedCell" ->
         "The cell at offset " \o LHex10(f[1]) \o " with a size of " \o LDec(f[2]) \o " bytes is unallocated"
    [] x.k = "UnsupportedClusteringFactor" ->
         "The clustering factor in the base block is expected to be " \o LDec(f[1]) \o ", but it is " \o LDec(f[2])
    [] x.k = "UnsupportedFileFormat" ->
         "The file format in the base block is expected to be " \o LDec(f[1]) \o ", but it is " \o LDec(f[2])
    [] x.k = "UnsupportedFileType" ->
         "The file type in the base block is expected to be " \o LDec(f[1]) \o ", but it is " \o LDec(f[2])
    [] x.k = "UnsupportedKeyValueDataType" ->
         "The key value data type at offset " \o LHex10(f[1]) \o " is " \o LHex10(f[2]) \o ", which is not supported"
    [] x.k = "UnsupportedVersion" ->
         "The version in the base block (" \o LDec(f[1]) \o "." \o LDec(f[2]) \o ") is unsupported"
=============================================================================
