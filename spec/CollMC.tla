------------------------------- MODULE CollMC -------------------------------
(* exhaustive exploration of the collection; with GEN, also prints call histories *)
EXTENDS Coll, TLC, Json
CONSTANTS Elems, Depth
VARIABLES s, hist

Seqs2 == {<<a, b>> : a \in Elems, b \in Elems} \cup {<<>>}
Idx == -3..3
Calls == [op : {"add", "remove_id"}, e : Elems]
         \cup [op : {"addall", "update"}, es : Seqs2]
         \cup [op : {"remove_at"}, i : Idx]
         \cup [op : {"replace_id"}, e : Elems, n : Elems]
         \cup [op : {"replace_at"}, i : Idx, n : Elems]
         \cup [op : {"clear", "remake"}]
Init == s = <<>> /\ hist = <<>>
Next == \E c \in Calls : s' = Post(s, c).s /\ hist' = <<>>
Spec == Init /\ [][Next]_<<s, hist>>
NextH == /\ Len(hist) < Depth
         /\ \E c \in Calls : s' = Post(s, c).s /\ hist' = Append(hist, c)
SpecH == Init /\ [][NextH]_<<s, hist>>

InvDistinct == Distinct(s)
InvOrder == \A c \in Calls : OrderKept(s, c) /\ Distinct(Post(s, c).s)
InvRefuse == \A c \in Calls : ~Post(s, c).ok => Post(s, c).s = s
InvNotify == \A c \in Calls : LET r == Post(s, c) IN
               c.op \notin {"clear", "update"} =>
                 \A x \in RangeOf(r.s) \ RangeOf(s) : \E i \in 1..Len(r.fired) : r.fired[i][2] = x
InvSlice == PySlice(s, None9, None9, 1) = s
            /\ \A a \in -4..4, b \in -4..4 : \A k \in 1..Len(PySlice(s, a, b, 1)) : Has(s, PySlice(s, a, b, 1)[k])
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
==============================================================================
