----------------------------- MODULE HideFlaws ------------------------------
(* HideMC without the exception for the known finding F1. *)
EXTENDS HideMC
NoGuess(i) == FALSE
=============================================================================
