------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings (sequences over 0..255), Keccak-256 and RLP as in the      *)
(* Ethereum yellow paper, appendix B.  Keccak256 is given its standard     *)
(* meaning by the Java override in java/TrieOverrides.java; the ASSUMEs    *)
(* below check the override against published test vectors on every run.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Keccak256(b) == CHOOSE h \in [1..32 -> 0..255] : TRUE

\* the concatenation of a sequence of sequences (overridden for speed)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

\* how byte strings are printed in records (overridden: a hexadecimal string)
Hex(b) == b

RECURSIVE BigEndian(_)
BigEndian(n) == IF n = 0 THEN <<>> ELSE BigEndian(n \div 256) \o <<n % 256>>

RlpHead(short, long, n) ==
    IF n <= 55 THEN <<short + n>>
    ELSE LET l == BigEndian(n) IN <<long + Len(l)>> \o l

RlpStr(b) ==
    IF Len(b) = 1 /\ b[1] < 128 THEN b
    ELSE RlpHead(128, 183, Len(b)) \o b

RlpList(payload) == RlpHead(192, 247, Len(payload)) \o payload

EmptyRoot == Keccak256(RlpStr(<<>>))

ASSUME Keccak256(<<>>) =
    <<197,210,70,1,134,247,35,60,146,126,125,178,220,199,3,192,
      229,0,182,83,202,130,39,59,123,250,216,4,93,133,164,112>>
ASSUME Concat(<<<<1, 2>>, <<>>, <<3>>>>) = <<1, 2, 3>>
ASSUME EmptyRoot =
    <<86,232,31,23,27,204,85,166,255,131,69,230,146,192,248,110,
      91,72,224,27,153,108,173,192,1,98,47,181,227,99,180,33>>
=============================================================================
