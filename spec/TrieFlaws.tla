----------------------------- MODULE TrieFlaws ------------------------------
(* TrieMC with one of the algorithms replaced. *)
EXTENDS TrieMC, FlawMC
=============================================================================
