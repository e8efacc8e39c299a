---------------------------- MODULE MeshTopoMC ----------------------------
(* All sequences of connectivity requests and releases.                   *)
EXTENDS MeshTopo, Json
CONSTANTS MaxLen, Emit
VARIABLES D, st, hist
Init == D \in 1..3 /\ st = Fresh(D) /\ hist = <<>>
Pairs == (0..D) \X (0..D)
\* The cell-vertex connectivity defines the mesh, it is never released.
DoSetup(p) == st' = SetupC(D, st, p[1], p[2])
              /\ hist' = Append(hist, [o |-> "setup", a |-> p[1], b |-> p[2]])
DoFree(p) == p # <<D, 0>> /\ st' = FreeC(D, st, p[1], p[2])
             /\ hist' = Append(hist, [o |-> "free", a |-> p[1], b |-> p[2]])
Next == Len(hist) < MaxLen /\ UNCHANGED D
        /\ \E p \in Pairs : DoSetup(p) \/ DoFree(p)
SimNext == Len(hist) < MaxLen /\ UNCHANGED D
           /\ LET p == RandomElement(Pairs) IN
              IF RandomElement({1, 2, 3}) = 1 /\ p # <<D, 0>> THEN DoFree(p) ELSE DoSetup(p)
Spec == Init /\ [][Next]_<<D, st, hist>>
SimSpec == Init /\ [][SimNext]_<<D, st, hist>>
View == <<D, st>>
TypeOK == st.avail \subseteq Pairs /\ {0, D} \subseteq st.built
\* Entities exist exactly while both defining connectivities do.
BuiltOK == \A d \in 1..(D - 1) : (d \in st.built <=> <<d, 0>> \in st.avail)
                                 /\ (<<D, d>> \in st.avail <=> <<d, 0>> \in st.avail)
CellsStay == <<D, 0>> \in st.avail
Requested == [][\A p \in Pairs : hist' # hist /\ hist'[Len(hist')].o = "setup"
                   /\ p = <<hist'[Len(hist')].a, hist'[Len(hist')].b>>
                   => p \in st'.avail]_<<D, st, hist>>
EmitHist == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"@beh", ToJson([D |-> D, h |-> hist])>>)
=========================================================================
