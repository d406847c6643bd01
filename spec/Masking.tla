------------------------------ MODULE Masking -------------------------------
(***************************************************************************)
(* A value is masked when it is made up of at least two characters that    *)
(* are all the same masking character.  Masking characters are code        *)
(* points; a byte stands for the code point with its number.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaskMinimum == 2

\* Is s[lo..hi] masked, given the set of masking characters?
IsMaskedRange(s, lo, hi, masks) ==
    /\ hi - lo + 1 >= MaskMinimum
    /\ \E m \in masks : \A i \in lo..hi : s[i] = m
IsMasked(s, masks) == IsMaskedRange(s, 1, Len(s), masks)
=============================================================================
