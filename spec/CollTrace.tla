------------------------------ MODULE CollTrace ------------------------------
(* validates the recorded calls on real ordered collections *)
EXTENDS Coll, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s

Expect(c) == IF c.op = "init" THEN Ok(AddAll(<<>>, c.es), <<>>) ELSE Post(s, c)

Bad(c) ==
  LET r == Expect(c)
      it == c.items
  IN Unless((c.exc = "") = r.ok, "C15.call_accepted_or_refused")
     \cup Unless(it = r.s, "C15.sequence_after_call")
     \cup Unless(Distinct(it), "C15.no_duplicates")
     \cup Unless(c.fired = r.fired, "C15.observers_notified_once")
     \cup Unless(c.size = Len(r.s), "C15.length_agrees")
     \cup Unless(c.vals = r.s, "C15.values_agree")
     \cup Unless(RangeOf(c.contains) = RangeOf(r.s), "C15.membership_agrees")
     \cup Unless(c.index = [i \in 1..Len(r.s) |-> i - 1], "C15.index_agrees")
     \cup Unless(c.indexid = [i \in 1..Len(r.s) |-> i - 1], "C15.index_agrees")
     \cup Unless(c.byid = r.s, "C15.lookup_by_id_agrees")
     \cup Unless(c.bypos = r.s, "C15.lookup_by_position_agrees")
     \cup Unless(c.byneg = r.s, "C15.lookup_by_position_agrees")
     \cup Unless(c.dict = r.s, "C15.listing_agrees")
     \cup Unless(c.absent, "C15.unknown_refused")
     \cup UNION {Unless(x[4] = PySlice(r.s, x[1], x[2], x[3]), "C15.slicing_like_lists") : x \in RangeOf(c.slices)}

Init == l = 1 /\ s = <<>>
Step == /\ l <= Len(Trace)
        /\ LET c == Trace[l]
               b == Bad(c)
           IN (b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b))) /\ s' = c.items
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, s>>
==============================================================================
