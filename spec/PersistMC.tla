----------------------------- MODULE PersistMC -----------------------------
(* every small object graph: what Save writes is sound and Load gives back the same graph; then histories of edits *)
EXTENDS Persist, TLC, Json
CONSTANTS N, NAMES, VALS, GEN, LEN
VARIABLES h, arc, phase, hist

Opts(i) == {<<>>} \cup {<<x>> : x \in (i + 1)..N} \cup {<<x, y>> : x \in (i + 1)..N, y \in (i + 1)..N}
Node(nm, v, o) == [k |-> "o", n |-> nm, a |-> <<<<"v", v>>>>, r |-> <<<<"x", o>>>>]
Heaps == {[i \in 1..N |-> Node(nm[i], vs[i], op[i])] :
            nm \in [1..N -> NAMES], vs \in [1..N -> VALS], op \in {f \in [1..N -> UNION {Opts(i) : i \in 1..N}] : \A i \in 1..N : f[i] \in Opts(i)}}

Init == IF GEN THEN h = <<>> /\ arc = <<>> /\ phase = "gen" /\ hist = <<>>
        ELSE h \in Heaps /\ arc = <<>> /\ phase = "made" /\ hist = <<>>
DoSave == phase \in {"made", "edited"} /\ arc' = Save(h) /\ phase' = "saved" /\ UNCHANGED <<h, hist>>
DoLoad == phase = "saved" /\ LET new == Load(arc, arc[Len(arc)].f) IN
            /\ Assert(SameGraph(new, h), <<"load", h, new>>)
            /\ Assert(Cardinality(Names(arc)) = Len(Order(h)), "one file per object")
            /\ h' = new
          /\ phase' = "loaded" /\ UNCHANGED <<arc, hist>>
DoEdit == phase = "loaded" /\ hist = <<>>
          /\ \E i \in 1..Len(h), v \in VALS : h' = SetAttr(h, i, "v", v) /\ hist' = <<i, v>>
                                              /\ Assert(SameShape(h, h'), "edit keeps the shape")
          /\ phase' = "edited" /\ UNCHANGED arc
OPS == {"edit", "rename", "share", "fresh", "clear", "add", "drop", "run", "save", "save", "ser", "update", "updref", "updcoll", "selfupd", "newobj"}
DoGen == phase = "gen" /\ Len(hist) < LEN /\ \E o \in OPS, x \in 0..11 : hist' = Append(hist, <<o, x>>)
         /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist')))
         /\ UNCHANGED <<h, arc, phase>>
Next == DoSave \/ DoLoad \/ DoEdit \/ DoGen
Spec == Init /\ [][Next]_<<h, arc, phase, hist>>
ArchiveSound == phase = "saved" => Sound(arc)
==============================================================================
