------------------------------ MODULE WeatherMC ------------------------------
(* small complete model of the ledger: two elements of two components, every process, moves, marks, releases *)
EXTENDS Weather, TLC, Json
CONSTANTS MaxC, Steps, Gen, Depth
VARIABLES els, bk, released, off, t, skimmed, h, used
(* element: [st, z, f, c] or absent *)
vars == <<els, bk, released, off, t, skimmed, h, used>>
Ids == {1, 2}
Gone == [st |-> 0, z |-> 0, f |-> NonW, c |-> <<0, 0>>]
Kinds == {"evap", "disp", "skim", "burn", "chem", "beach"}
Mass(e) == e.c[1] + e.c[2]
A0 == 1
A1 == 4
Dt == 2
Total == 3      \* a skimmer of 3 units over [1, 4], steps of 2

Init == /\ els = [i \in Ids |-> Gone] /\ bk = [k \in Kinds |-> 0] /\ released = 0 /\ off = 0 /\ t = 0 /\ skimmed = 0 /\ h = <<>> /\ used = {}
Release(i) == /\ i \notin used /\ used' = used \cup {i} /\ (i = 2 => 1 \in used) /\ t < Steps * Dt
              /\ \E a \in 0..MaxC, b \in 0..MaxC, z \in {0, 1} :
                   /\ a + b > 0
                   /\ els' = [els EXCEPT ![i] = [st |-> WaterS, z |-> z, f |-> IF z = 0 THEN Surf ELSE Subs, c |-> <<a, b>>]]
                   /\ released' = released + a + b
              /\ UNCHANGED <<bk, off, t, skimmed, h>>
Mark(i) == /\ els[i].f \in {Surf} \cup Marks /\ \E m \in Marks : els' = [els EXCEPT ![i].f = m]
           /\ UNCHANGED <<bk, released, off, t, skimmed, h, used>>
Move(i) == /\ els[i].st # 0
           /\ \E st \in {WaterS, LandS}, z \in {0, 1} :
                els' = [els EXCEPT ![i].st = st, ![i].z = z, ![i].f = FateAfterMove(TRUE, st, z, @)]
           /\ UNCHANGED <<bk, released, off, t, skimmed, h, used>>
Leave(i) == /\ els[i].st # 0 /\ off' = off + Mass(els[i]) /\ els' = [els EXCEPT ![i] = Gone]
            /\ UNCHANGED <<bk, released, t, skimmed, h, used>>
Take(i, k) == /\ els[i].st # 0 /\ k \in MayTake(els[i].f)
              /\ \E a \in 0..els[i].c[1], b \in 0..els[i].c[2] :
                   /\ a + b > 0
                   /\ els' = [els EXCEPT ![i].c = <<@[1] - a, @[2] - b>>]
                   /\ bk' = [bk EXCEPT ![k] = @ + a + b]
              /\ UNCHANGED <<released, off, t, skimmed, h, used>>
Tick == /\ t < Steps * Dt /\ t' = t + Dt /\ skimmed' = skimmed + Overlap(t, Dt, A0, A1)
        /\ UNCHANGED <<els, bk, released, off, h, used>>
Next == \/ \E i \in Ids : Release(i) \/ Mark(i) \/ Move(i) \/ Leave(i)
        \/ \E i \in Ids, k \in Kinds : Take(i, k)
        \/ Tick
Sum == Mass(els[1]) + Mass(els[2])
Booked == bk["evap"] + bk["disp"] + bk["skim"] + bk["burn"] + bk["chem"] + bk["beach"]
Conserved == Sum + Booked + off = released
Typed == \A i \in Ids : els[i].f \in Fates /\ els[i].c[1] >= 0 /\ els[i].c[2] >= 0
(* only what weathers loses mass; what is on land does not weather *)
LandKeeps == \A i \in Ids : els[i].st = LandS => MayTake(els[i].f) = {}
WindowShared == t >= A1 => skimmed = A1 - A0
Monotone == [][\A k \in Kinds : bk'[k] >= bk[k]]_vars
Spec == Init /\ [][Next]_vars
Small == released <= 5

(* histories to be replayed: the pushes of elements and the calls on the model *)
GenInit == Init
Moves == {<<0, 0>>, <<1, 0>>, <<14, 0>>, <<-9, 0>>, <<0, 3>>, <<0, -3>>, <<-30, 0>>}
GenNext == /\ Len(h) < Depth
           /\ \E mv \in Moves, w \in 0..9 :
                h' = Append(h, [mv |-> mv, op |-> IF w = 0 /\ Len(h) > 3 THEN <<"rewind">> ELSE IF w = 1 /\ Len(h) > 2 THEN <<"toggle", Len(h)>> ELSE <<"step">>])
           /\ UNCHANGED <<els, bk, released, off, t, skimmed, used>>
GenSpec == GenInit /\ [][GenNext]_vars
Emit == (Gen /\ Len(h) = Depth) => PrintT("GEN|" \o ToJson([moves |-> [i \in 1..7 |-> h[i].mv], ops |-> [i \in 1..Depth |-> h[i].op]]))
==============================================================================
