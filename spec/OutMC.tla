-------------------------------- MODULE OutMC --------------------------------
(* two ragged files (certain, uncertain) written at the scheduled steps of a run that may be rewound at any
   point: at any time they read back as exactly the due steps of the current run.  GEN: call histories. *)
EXTENDS Out, TLC, Json
CONSTANTS STEPS, NOUT, GEN, LEN
VARIABLES m, o, log, files, hist
vars == <<m, o, log, files, hist>>

Conf(n, unc) == [start |-> 0, dt |-> 2, dur |-> 2 * n, back |-> FALSE, unc |-> unc, step |-> -1]
Outs == {[kind |-> "nc", on |-> TRUE, zero |-> z, last |-> l, single |-> s, ots |-> ts, ostart |-> os] :
           z \in BOOLEAN, l \in BOOLEAN, s \in BOOLEAN, ts \in {0, 4, 5}, os \in {None0, 2, 3}}
RowSets == {<<>>, <<<<1>>>>, <<<<1>>, <<2>>>>}
Init == IF GEN THEN m = Conf(1, FALSE) /\ o = 0 /\ log = <<>> /\ files = <<>> /\ hist = <<>>
        ELSE m \in {Conf(n, u) : n \in 1..STEPS, u \in BOOLEAN} /\ o \in Outs /\ log = <<>>
             /\ files = [i \in 1..2 |-> NewFile] /\ hist = <<>>
Streamed(u) == IF u THEN {<<a, b>> : a \in RowSets, b \in RowSets} ELSE {<<a>> : a \in RowSets}
Step == /\ ~GEN /\ m.step < NumSteps(m) - 1
        /\ \E c \in Streamed(m.unc) :
             LET k == m.step + 1
                 fs == IF k = 0 THEN [i \in 1..2 |-> NewFile] ELSE files
             IN /\ log' = Append(IF k = 0 THEN <<>> ELSE log, [t |-> m.start + k * m.dt, conts |-> c])
                /\ m' = [m EXCEPT !.step = k]
                /\ files' = IF OutAt(m, o, k).w THEN [i \in 1..2 |-> IF i <= Len(c) THEN AppendRec(fs[i], c[i]) ELSE fs[i]] ELSE fs
        /\ UNCHANGED <<o, hist>>
Rewind == ~GEN /\ m.step >= 0 /\ Len(hist) < 1 /\ \E u \in BOOLEAN : m' = [m EXCEPT !.step = -1, !.unc = u]
          /\ log' = <<>> /\ hist' = Append(hist, 1) /\ UNCHANGED <<o, files>>
OPS == {"step", "step", "step2", "finish", "finish", "full", "rewind", "unc", "read", "read", "post", "dur"}
DoGen == GEN /\ Len(hist) < LEN /\ \E x \in OPS, y \in 0..5 : hist' = Append(hist, <<x, y>>)
         /\ (Len(hist') = LEN => PrintT("GEN|" \o ToJson(hist'))) /\ UNCHANGED <<m, o, log, files>>
Next == Step \/ Rewind \/ DoGen
Spec == Init /\ [][Next]_vars
(* reading back gives the due steps, in order *)
Faithful == ~GEN /\ m.step >= 0 =>
   LET d == Due(m, o, log) IN
   \A i \in 1..(IF m.unc THEN 2 ELSE 1) : /\ NumRecs(files[i]) = Len(d)
                                          /\ \A j \in 1..Len(d) : ReadRec(files[i], j) = d[j].conts[i]
(* what is due never changes once the run has passed it *)
DueGrows == [][~GEN /\ m.step >= 0 /\ m'.step > m.step => LET a == Due(m, o, log) b == Due(m', o, log') IN
                Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a]_vars
==============================================================================
