------------------------------ MODULE PushGen ------------------------------
(* histories of pushes, one raster vector per step, that are replayed on real maps *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE h
Init == h = <<>>
Next == Len(h) < Depth /\ \E x \in -3..3, y \in -3..3 : h' = Append(h, <<x, y>>)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT("GEN|" \o ToJson(h))
==============================================================================
