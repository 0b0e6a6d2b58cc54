------------------------------- MODULE ArcTrace -------------------------------
EXTENDS Arc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
S(x) == {x[i] : i \in 1..Len(x)}
(* references follow the names of the files they refer to (one to a file that isn't there may read as it likes, if names were edited) *)
RefOk(es, p, clean, e, k, got) == LET there == \E i \in Taken(es, p) : es[i].name = e.refs[k][1] IN
   IF clean /\ e.json THEN (there => got = e.refs[k][2]) ELSE got = e.refs[k][1]
RefsAs(es, p, clean, e, got) == Len(got) = Len(e.refs) /\ \A k \in 1..Len(got) : RefOk(es, p, clean, e, k, got[k])
ById(es, id) == es[CHOOSE i \in 1..Len(es) : es[i].id = id]
PrefixOf(c) == IF c.how \in {"updater", "open"} THEN Prefix(c.entries) ELSE c.prefix
RefsOk(c) == \A i \in 1..Len(c.out) : LET o == c.out[i] IN \E j \in 1..Len(c.entries) : c.entries[j].id = o[2] /\ (~c.entries[j].text \/ RefsAs(c.entries, PrefixOf(c), c.how \in {"updater", "open"}, c.entries[j], o[3]))
FolderOf(fs) == [x \in {fs[i].name : i \in 1..Len(fs)} |-> LET f == fs[CHOOSE i \in 1..Len(fs) : fs[i].name = x] IN [type |-> f.type, n |-> f.n, list |-> f.list, range |-> f.range, inits |-> f.inits]]
U(cond, name) == Unless(cond, "C25." \o name)
Bad(c) ==
  CASE c.op = "begin" -> {}
    [] c.op = "failed" -> {"C25.failed"}
    [] c.op = "judge" -> U(c.exc = "" /\ c.valid = Accepted(c.a), "accepted") \cup U(c.same, "left_alone")
    [] c.op = "extract" ->
         U(c.outside = <<>>, "contained")
         \cup U(c.exc = "" /\ {<<c.out[i][1], c.out[i][2]>> : i \in 1..Len(c.out)} = Extracted(c.entries, PrefixOf(c), c.how \in {"updater", "open"}), "contents")
         \cup (IF c.exc = "" THEN U(RefsOk(c), "references") ELSE {}) \cup U(c.same, "left_alone")
    [] c.op = "save" ->
         LET ok == SaveOk(c.kind, c.there, c.over) IN
         U((c.exc = "") = ok /\ (ok \/ c.exc = "ValueError"), "save_refused") \cup U(c.outside = <<>>, "contained")
         \cup (IF c.exc # "" THEN U(c.same, "save_keeps") ELSE U(c.path, "save_place") \cup U(c.loaded /\ c.valid, "save_complete") \cup U(c.kept = Keeps(c.kind, c.there, c.over), "save_keeps"))
    [] c.op = "upgrade" ->
         LET f == FolderOf(c.files) bad == c.broken /\ c.v < CURRENT IN
         U((c.exc # "") = bad, "upgrade_fails") \cup U(c.cwd /\ c.others, "contained")
         \cup (IF c.exc # "" \/ bad THEN {} ELSE U(FolderOf(c.after) = Upgraded(c.v, f), "upgraded") \cup U(c.version = CURRENT, "version") \cup U(c.again, "settled"))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == Bad(Trace[l]) IN (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b)))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
