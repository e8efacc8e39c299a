---------------------------- MODULE RegionMC ----------------------------
(* The design of the region algebra on small meshes: every definition     *)
(* sequence of at most MaxDefs selectors over a set of leaves, operators  *)
(* and kinds.                                                             *)
EXTENDS Region, Json, SequencesExt
CONSTANTS MaxDefs, Emit
VARIABLES regs, hist

\* Two quadrilaterals sharing an edge and a triangle on top of the left one:
\*   4---5---6
\*   | 0 | 1 |       cell 2: triangle 4 5 7 above cell 0
\*   0---1---2
Mesh == [tdim |-> 2, nv |-> 7,
         ent |-> << << <<0,1>>, <<1,4>>, <<4,3>>, <<3,0>>, <<1,2>>, <<2,5>>,
                       <<5,4>>, <<4,6>>, <<6,3>> >>,
                    << <<0,1,4,3>>, <<1,2,5,4>>, <<3,4,6>> >> >>,
         crd |-> << <<0,0>>, <<2,0>>, <<4,0>>, <<0,2>>, <<2,2>>, <<4,2>>, <<0,4>> >>,
         ccen |-> << <<0,0>>, <<0,0>>, <<0,0>> >>,
         vg |-> <<0,1,0,1,0,1,0>>, cg |-> <<1,2,1>>,
         surf |-> <<0, 3, 4, 5, 6, 7, 8>>, sets |-> [s |-> <<0, 4>>]]

L(l) == [t |-> "leaf", l |-> l]
X(o) == [t |-> o, l |-> [k |-> "none"]]
Leaves == { L([k |-> "all"]), L([k |-> "surf"]), L([k |-> "cgroup", n |-> 1]),
            L([k |-> "cids", ids |-> <<1>>]),
            L([k |-> "vids", ids |-> <<0, 1, 4>>]),
            L([k |-> "vin", rpn |-> <<[op |-> ">=", ax |-> 1, val |-> 2]>>]) }
Ops == {"+v", "-v", "*v", "+c", "-c", "*c", "-s", "*e"}
Kinds == {"cell", "facet", "vertex", "cell_only"}
Refs == {L([k |-> "ref", name |-> n]) : n \in DOMAIN regs}

Sels == {<<a>> : a \in Leaves}
        \cup {<<a, X(o), b>> : a \in Leaves \cup Refs, o \in Ops, b \in Refs}
        \cup {<<X("("), a, X(o), b, X(")"), X(p), c>> :
                a \in Refs, o \in {"-v", "+c"}, b \in Leaves, p \in {"-v"}, c \in Refs}
        \cup {<<a, X(o), b, X(p), c>> :
                a \in Refs, o \in {"-v", "-c"}, b \in Leaves, p \in {"-v", "*c"}, c \in Refs}

Init == regs = <<>> /\ hist = <<>>
Define(s, k, al) ==
  LET n == ToString(Len(hist) + 1)
      R == Create(Mesh, regs, s, k, al) IN
  /\ Len(hist) < MaxDefs
  /\ regs' = IF R.err THEN regs ELSE (("n" \o n) :> R) @@ regs
  /\ hist' = Append(hist, [name |-> "n" \o n, toks |-> s, kind |-> k, allow |-> al])
Next == \E s \in Sels, k \in Kinds, al \in {TRUE, FALSE} : Define(s, k, al)
Spec == Init /\ [][Next]_<<regs, hist>>
SimNext == Define(RandomElement(Sels), RandomElement(Kinds), RandomElement({TRUE, FALSE}))
SimSpec == Init /\ [][SimNext]_<<regs, hist>>
View == regs

----------------------------------------------------------------------------
TypeOK == \A n \in DOMAIN regs : regs[n].known = Dims(Mesh) /\ ~regs[n].err
\* Entity dimensions of every region agree.
AllConsistent == \A n \in DOMAIN regs : Consistent(Mesh, regs[n])
\* Set algebra on the operated entities: for cell regions A, B
\* (A -c B) +c (A *c B) = A,  A -c A is refused, De Morgan style identities.
C(n) == regs[n].ent[2]
Cells(toks) == LET R == Create(Mesh, regs, toks, "cell", TRUE) IN
               IF R.err THEN {} ELSE R.ent[2]
Algebra ==
  \A a, b \in {n \in DOMAIN regs : regs[n].kind = "cell"} :
    LET A == L([k |-> "ref", name |-> a])
        B == L([k |-> "ref", name |-> b]) IN
    /\ Cells(<<A, X("-c"), B>>) = C(a) \ C(b)
    /\ Cells(<<A, X("+c"), B>>) = C(a) \cup C(b)
    /\ Cells(<<A, X("*c"), B>>) = C(a) \cap C(b)
    \* grouping to the right: A - B - A = A - (B - A)
    /\ Cells(<<A, X("-c"), B, X("-c"), A>>) = C(a) \ (C(b) \ C(a))
    /\ Cells(<<X("("), A, X("-c"), B, X(")"), X("-c"), A>>) = {}
\* No definition changes an earlier region.
Stable == [][\A n \in DOMAIN regs : n \in DOMAIN regs' /\ regs'[n] = regs[n]]_<<regs, hist>>

EmitHist == (Emit /\ Len(hist) = MaxDefs) => PrintT(<<"@beh", ToJson(hist)>>)
=============================================================================
