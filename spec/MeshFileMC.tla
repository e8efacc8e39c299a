----------------------------- MODULE MeshFileMC -----------------------------
(* A mesh in memory is kept as one numbering of the cells per dimension    *)
(* and a list of kinds; a file is a list of blocks with groups kept per    *)
(* cell ("data") or as sets of positions local to each block ("sets").     *)
EXTENDS MeshFile, Json
CONSTANTS MaxCells, MaxOps, MaxHist
VARIABLES m0, mem, nops, hist
vars == <<m0, mem, nops, hist>>
KK == {"1_2", "2_3", "2_4"}
\* Blocks of cells (several of one kind are allowed) to the memory form.
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Uniq(SelectSeq(Tail(s), LAMBDA x : x # s[1]))
Load(blocks) ==
  [descs |-> Uniq([j \in DOMAIN blocks |-> blocks[j].kind]),
   num |-> [d \in 1..2 |-> FlattenSeq([j \in DOMAIN blocks |->
             IF KindDim(blocks[j].kind) = d THEN [k \in DOMAIN blocks[j].cells |-> <<blocks[j].kind, blocks[j].cells[k][1], blocks[j].cells[k][2]>>]
             ELSE <<>>])]]
\* Writing: a block per kind.
Blocks(m) == [j \in DOMAIN m.descs |->
  [kind |-> m.descs[j], cells |-> LET cs == OfKind(m.num[KindDim(m.descs[j])], m.descs[j])
                                  IN [k \in DOMAIN cs |-> <<cs[k][2], cs[k][3]>>]]]
Sets(bl, g) == [j \in DOMAIN bl |-> {k \in DOMAIN bl[j].cells : bl[j].cells[k][1] = g}]
FromSets(bl, gs) == [j \in DOMAIN bl |-> [kind |-> bl[j].kind, cells |-> [k \in DOMAIN bl[j].cells |->
  <<CHOOSE g \in gs : k \in Sets(bl, g)[j], bl[j].cells[k][2]>>]]]
Cells(m) == FlattenSeq([j \in DOMAIN m.descs |-> OfKind(m.num[KindDim(m.descs[j])], m.descs[j])])
Groups == {1, 2}
AllCells == [kind : KK, g : Groups]
\* The vertices name the cell.
MkBlocks(s) == [j \in DOMAIN s |-> [kind |-> s[j].kind, cells |-> << <<s[j].g, <<j>> >> >>]]
Init == /\ \E s \in UNION {[1..n -> AllCells] : n \in 1..MaxCells} : m0 = Load(MkBlocks(s)) /\ mem = Load(MkBlocks(s))
        /\ nops = 0 /\ hist = <<>>
Do(x) == nops < MaxOps /\ mem' = x /\ nops' = nops + 1 /\ UNCHANGED <<m0, hist>>
Next == \/ Do(Load(Blocks(mem)))
        \/ Do(Load(FromSets(Blocks(mem), Groups)))
Spec == Init /\ [][Next]_vars
Same == SameCells(Cells(m0), Cells(mem), TRUE)
Omit(m) == Load(SelectSeq(Blocks(m), LAMBDA b : KindDim(b.kind) = 2))
OmitOk == SameCells(Cells(Omit(mem)), SelectSeq(Cells(m0), LAMBDA c : KindDim(c[1]) = 2), TRUE)
Stable == Load(Blocks(Load(Blocks(mem)))) = Load(Blocks(mem))
SimInit == m0 = <<>> /\ mem = <<>> /\ nops = 0 /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist
           /\ \E x \in {[k \in 1..4 |-> RandomElement((0..23) \ {-Len(hist)})]} : hist' = Append(hist, x)
           /\ UNCHANGED <<m0, mem, nops>>
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) < MaxHist \/ PrintT(<<"@beh", ToJson(hist)>>)
============================================================================
