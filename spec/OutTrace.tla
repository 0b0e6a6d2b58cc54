------------------------------ MODULE OutTrace ------------------------------
(* validates what recorded runs returned and left in files *)
EXTENDS Out, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, outs, log
vars == <<l, m, outs, log>>

P(o) == IF IsMb(o) THEN "C21." ELSE "C20."
(* one record against the step it is due for *)
RecOk(o, s, r) ==
     Unless(Clock(o, s.t) = r.t, P(o) \o "record_is_of_the_scheduled_time")
  \cup (IF IsMb(o) THEN Unless(MbOk(o, s.mb, r.mb), "C21.mass_balance_as_computed")
             \cup Unless(o.kind = "budget" => r.since = (Clock(o, s.t - m.start)) \div 120, "C21.hours_since_start")
        ELSE IF Len(r.conts) # Len(s.conts) THEN {"C20.certain_and_uncertain_kept_apart"}
        ELSE Unless(\A c \in 1..Len(s.conts) : RowsOk(o, s.conts[c], r.conts[c]), "C20.elements_as_computed")
             \cup (IF o.kind # "nc" THEN {}
                   ELSE Unless(Len(r.arr) = Len(s.arr) /\ \A c \in 1..Len(s.arr) : ArrOk(o, s.arr[c], r.arr[c]), "C20.all_arrays_as_computed")
                        \cup Unless(MbOk(o, s.mb, r.mb), "C21.mass_balance_as_computed")))
Rows(s) == SumSeq([i \in 1..Len(s.conts) |-> Len(s.conts[i])])
(* steps without elements leave no trace in a shapefile *)
Visible(o, due) == IF o.kind = "shape" THEN SelectSeq(due, LAMBDA s : Rows(s) > 0) ELSE due
Match(o, due0, recs) ==
  LET due == Visible(o, due0) IN
  IF Len(due) # Len(recs) THEN {P(o) \o "one_record_per_scheduled_step"}
  ELSE UNION {RecOk(o, due[i], recs[i]) : i \in 1..Len(due)}

(* a step: what it returned *)
Rets(ev) ==
  LET lg == Append(log, ev) IN
  UNION {LET o == outs[r.i + 1]
             w == OutAt(m, o, ev.k).w
         IN IF ~w THEN Unless(~r.has, P(o) \o "nothing_returned_off_schedule")
            ELSE IF ~r.has THEN Unless(o.kind \in {"budget"}, P(o) \o "record_returned_when_due")
            ELSE Unless(r.t = ev.t, P(o) \o "record_is_of_the_scheduled_time")
                 \cup (IF o.kind \in {"geo", "sjson", "wx"} THEN RecOk(o, ev, r) ELSE {})
         : r \in RangeOf(ev.rets)}
Files(ev) == UNION {LET o == outs[f.i + 1] IN
                IF f.exc # "" THEN {P(o) \o "output_can_be_read"}
                ELSE Match(o, Due(m, o, log), f.recs)
                     \cup Unless(o.kind # "nc" \/ ~o.on \/ f.names = m.names, "C20.spills_named")
                : f \in RangeOf(ev.files)}
(* written afterwards, for the steps done so far *)
Post(ev) == LET mm == [m EXCEPT !.dur = ev.k * m.dt] IN
            UNION {LET o == outs[f.i + 1] IN
                IF f.exc # "" THEN {P(o) \o "output_can_be_written_afterwards"}
                ELSE Match(o, Due(mm, o, log), f.recs)
                : f \in RangeOf(ev.files)}
(* read_data by index or by time of a file with the due records *)
Dist(due, i, t) == Abs(due[i].t - t)
ReadOk(ev) ==
  LET o == outs[ev.i + 1]
      due == Due(m, o, log)
      n == Len(due)
      idx == IF ev.by = "index" THEN (IF ev.arg < 0 THEN n + ev.arg + 1 ELSE ev.arg + 1)
             ELSE CHOOSE i \in 1..n : (\A j \in 1..n : Dist(due, i, ev.arg) <= Dist(due, j, ev.arg)) /\ \A j \in 1..(i - 1) : Dist(due, j, ev.arg) > Dist(due, i, ev.arg)
      s == due[idx]
  IN IF n = 0 THEN {}
     ELSE IF ev.exc # "" THEN {"C20.output_can_be_read"}
     ELSE Unless(ev.t = s.t, "C20.record_is_of_the_scheduled_time")
          \cup Unless(RowsOk(o, s.conts[ev.c], ev.rows), "C20.elements_as_computed")
          \cup Unless(MbOk(o, s.mbs[ev.c], ev.mb), "C21.mass_balance_as_computed")

Bad(ev) == CASE ev.op = "ostep" -> IF ev.exc # "" THEN {"C20.outputs_do_not_stop_the_run"} ELSE Rets(ev)
             [] ev.op = "files" -> Files(ev)
             [] ev.op = "post" -> Post(ev)
             [] ev.op = "read" -> ReadOk(ev)
             [] ev.op = "oend" -> Unless(ev.exc = "", "C20.outputs_do_not_stop_the_run")
             [] ev.op = "fail" -> {"C20.outputs_do_not_stop_the_run"}
             [] OTHER -> {}
Init == l = 1 /\ m = 0 /\ outs = <<>> /\ log = <<>>
Step == /\ l <= Len(Trace)
        /\ LET ev == Trace[l]
               b == Bad(ev)
           IN /\ b = {} \/ PrintT("BAD|" \o ToString(l) \o "|" \o ToString(b))
              /\ m' = IF ev.op \in {"ocfg", "orew"} THEN ev.m ELSE m
              /\ outs' = IF ev.op = "ocfg" THEN ev.outs ELSE outs
              /\ log' = IF ev.op \in {"ocfg", "orew"} THEN <<>>
                        ELSE IF ev.op = "ostep" /\ ev.exc = "" THEN Append(log, [t |-> ev.t, conts |-> ev.conts, arr |-> ev.arr, mb |-> ev.mb, mbs |-> ev.mbs])
                        ELSE log
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
==============================================================================
