----------------------------- MODULE KeyedFlaws -----------------------------
(* Wrong ways of turning integers into keys, to be refuted by KeyedMC. *)
EXTENDS KeyedMC

KeyPadded(in) == IF in.ty = "nibbles" THEN in.n ELSE UnpackBytes(in.n)
KeyTrimmed(in) == IF in.ty = "nibbles" THEN in.n ELSE Rev(StripZeros(Rev(UnpackBytes(in.n))))
=============================================================================
