------------------------------ MODULE MC_Masking -----------------------------
(***************************************************************************)
(* C05 in the design: in every small block, one data object after the      *)
(* other is masked, deepest ones included.  The rest of the listing stays  *)
(* as it was.                                                              *)
(*                                                                         *)
(* A block is kept as a forest of [tag, form, value, kids]; masking is a   *)
(* step, and may be followed by others.                                    *)
(***************************************************************************)
EXTENDS Listing, BerTlv

CONSTANT Steps

Masks == {42}
Leafs == { [tag |-> t, form |-> 0, value |-> v, kids |-> <<>>] :
             t \in { <<80>>, <<149>>, <<159, 16>>, <<138>> }, v \in { <<>>, <<7>>, <<48, 48>>, <<1, 2, 3, 4, 5>> } }
Trees1 == { [tag |-> t, form |-> f, value |-> <<>>, kids |-> k] :
             t \in { <<112>>, <<255, 1>> }, f \in {0, 2},
             k \in { <<x>> : x \in Leafs } \cup { <<x, y>> : x \in Leafs, y \in { z \in Leafs : z.tag = <<149>> } } }
Opaque == { [tag |-> <<225>>, form |-> 0, value |-> v, kids |-> <<>>] : v \in { <<>>, <<1>>, <<80, 2, 3>>, <<42, 43>> } }
Trees2 == { [tag |-> <<97>>, form |-> 0, value |-> <<>>, kids |-> k] :
             k \in { <<x, y>> : x \in { t \in Trees1 : t.form = 0 }, y \in Opaque } }
Forests == { <<x, y>> : x \in Trees1 \cup Trees2, y \in Opaque \cup { z \in Leafs : z.value # <<>> } }

RECURSIVE ValueOf(_), Encoded(_)
ValueOf(t) == IF t.kids = <<>> THEN t.value ELSE Encoded(t.kids)
Encoded(f) == Concat([i \in 1..Len(f) |-> Encode(f[i].tag, ValueOf(f[i]), f[i].form)])

VARIABLES forest, path, before, left
vars == <<forest, path, before, left>>

Read(f) == LET p == ParseBer(Encoded(f), Masks) IN IF p.ok THEN AnnotateNodes(p.nodes, 1, <<>>) ELSE Bad2(p.err)

\* All the ways down to a data object whose value is at least two bytes long.
RECURSIVE Paths(_)
Paths(f) == UNION { (IF Len(ValueOf(f[i])) >= 2 THEN { <<i>> } ELSE {}) \cup { <<i>> \o p : p \in Paths(f[i].kids) } : i \in 1..Len(f) }
RECURSIVE MaskAt(_, _)
MaskAt(f, p) ==
    LET i == Head(p) IN
    [f EXCEPT ![i] = IF Len(p) > 1 THEN [@ EXCEPT !.kids = MaskAt(@, Tail(p))]
                     ELSE [@ EXCEPT !.value = [k \in 1..Len(ValueOf(f[i])) |-> 42], !.kids = <<>>]]

Init == forest \in Forests /\ path = <<>> /\ before = Read(forest) /\ left = Steps
\* Only what can be listed is masked: the claim is about such blocks.
MaskOne == \E p \in Paths(forest) :
             /\ left > 0 /\ before.ok
             /\ forest' = MaskAt(forest, p) /\ path' = p /\ before' = Read(forest) /\ left' = left - 1
Next == MaskOne \/ UNCHANGED vars

RECURSIVE OnlyThere(_, _, _)
OnlyThere(old, new, p) ==
    /\ Len(old) = Len(new)
    /\ \A i \in 1..Len(old) :
          IF i # Head(p) THEN new[i] = old[i]
          ELSE IF Len(p) > 1
               THEN new[i].tag = old[i].tag /\ new[i].name = old[i].name /\ OnlyThere(old[i].kids, new[i].kids, Tail(p))
               ELSE /\ new[i].masked /\ new[i].tag = old[i].tag /\ new[i].name = TagName(old[i].tag)
                    /\ new[i].data = <<>> /\ ~new[i].parsed /\ new[i].view = <<>> /\ new[i].kids = <<>>
Harmless == path # <<>> => LET r == Read(forest) IN r.ok /\ OnlyThere(before.nodes, r.nodes, path)
=============================================================================
