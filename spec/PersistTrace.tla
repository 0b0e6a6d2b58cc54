---------------------------- MODULE PersistTrace ----------------------------
(* validates recorded round trips and updates of real object graphs *)
EXTENDS Persist, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

(* with identities *)
CanonU(h) ==
  LET ord == Order(h)
      num == [i \in RangeOf(ord) |-> IndexOf(i, ord)]
  IN [j \in 1..Len(ord) |-> [k |-> h[ord[j]].k, a |-> h[ord[j]].a, r |-> MapRefs(h[ord[j]].r, num), u |-> h[ord[j]].u]]
SelectSeqA(s, free) == LET Keep(x) == x[1] \notin free IN SelectSeq(s, Keep)
Mask(c, free) == [j \in 1..Len(c) |-> [c[j] EXCEPT !.a = SelectSeqA(@, free)]]
Attrs(c) == [j \in 1..Len(c) |-> <<c[j].k, c[j].a>>]
Refs(c) == [j \in 1..Len(c) |-> <<c[j].k, c[j].r>>]
Ids(c) == [j \in 1..Len(c) |-> c[j].u]

BadRt(c) ==
  LET p == IF c.mode = "save" THEN "C11." ELSE "C12."
      a0 == Canon(c.h0)
      a1 == Canon(c.h1)
  IN IF c.exc # "" THEN {p \o "round_trip_succeeds"}
     ELSE Unless(Refs(a0) = Refs(a1), p \o "same_objects_and_sharing")
     \cup Unless(Attrs(a0) = Attrs(a1), p \o "same_settings")
     \cup Unless(CanonU(c.h0) = CanonU(c.h0b), p \o "original_untouched")
     \cup Unless(Len(c.res0) = Len(c.res1) /\ \A i \in 1..Len(c.res0) : Near(c.res0[i], c.res1[i], 2), p \o "same_results")
     \cup (IF c.mode # "save" THEN {} ELSE
              Unless(UniqueNames(c.arc) /\ c.plain, "C11.archive_names")
         \cup (IF ~SelfContained(c.arc) \/ c.root \notin Names(c.arc) THEN {"C11.archive_self_contained"}
               ELSE Unless(SameShape(Load(c.arc, c.root), c.h0) /\ Len(c.arc) = Len(a0), "C11.archive_is_the_graph")))

RECURSIVE ApplySets(_, _), ApplyRefs(_, _)
ApplySets(h, s) == IF s = <<>> THEN h ELSE ApplySets(SetAttr(h, s[1][1], s[1][2], s[1][3]), Tail(s))
ApplyRefs(h, s) == IF s = <<>> THEN h ELSE ApplyRefs(SetRef(h, s[1][1], s[1][2], s[1][3]), Tail(s))
BadUpd(c) ==
  LET want == Mask(CanonU(ApplyRefs(ApplySets(AddNodes(c.h0, c.new), c.sets), c.refsets)), RangeOf(c.free))
      got == Mask(CanonU(c.h1), RangeOf(c.free))
  IN IF c.exc # "" THEN {"C12.update_accepted"}
     ELSE Unless(Refs(want) = Refs(got), "C12.update_references_as_asked")
     \cup Unless(Attrs(want) = Attrs(got), "C12.update_settings_as_asked")
     \cup Unless(Ids(want) = Ids(got), "C12.update_in_place")

Bad(c) == CASE c.op = "rt" -> BadRt(c)
            [] c.op = "upd" -> BadUpd(c)
            [] c.op = "fail" -> {"C12.history_goes_on"}
            [] OTHER -> {}
Init == l = 1
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l]
               b == Bad(c)
           IN b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b))
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l>>
==============================================================================
