----------------------------- MODULE ValueFlaws -----------------------------
(* Wrong ways of storing typed values, to be refuted by ValueMC. *)
EXTENDS ValueMC

StoredShort(in) == IF in.ty = "H256" THEN Hid(in.n) ELSE Val(in.n)
StoredLittle(in) ==
    CASE in.ty \in {"vec", "slice"} -> Val(in.n)
      [] in.ty = "H256" -> Hid(in.n)
      [] OTHER -> Val(Rev(Zeros(Width[in.ty] - Len(in.n)) \o in.n))
StoredHashValue(in) ==
    CASE in.ty \in {"vec", "slice"} -> IF Len(in.n) = 32 THEN Hid(in.n) ELSE Val(in.n)
      [] in.ty = "H256" -> Hid(in.n)
      [] OTHER -> Val(Zeros(Width[in.ty] - Len(in.n)) \o in.n)
=============================================================================
