----------------------------- MODULE ObjFileMC -----------------------------
EXTENDS ObjFile, Json, TLC, FiniteSets
CONSTANTS N, MaxWrites, MaxHist
VARIABLES heap, file, cache, writes, hist
vars == <<heap, file, cache, writes, hist>>
Names == <<"a", "b">>
\* The objects refer to the ones with lower numbers.
Kids(n) == {<<>>} \cup {<<<<Names[1], a>>>> : a \in 1..(n - 1)} \cup {<<<<Names[1], a>>, <<Names[2], b>>>> : a, b \in 1..(n - 1)}
Objects(n) == [kind : {"leaf", "val"}, kids : {<<>>}] \cup [kind : {"list"}, kids : Kids(n)]
              \cup [kind : {"cached", "uncached"}, kids : {<<<<"x", a>>>> : a \in 1..(n - 1)}]
RECURSIVE Heaps(_)
Heaps(n) == IF n = 0 THEN {<<>>} ELSE {Append(h, o) : h \in Heaps(n - 1), o \in Objects(n)}
Init == heap \in Heaps(N) /\ file = <<>> /\ cache = {} /\ writes = <<>> /\ hist = <<>>
\* Values are written under new names, with the shared cache or a new one.
DoWrite == /\ Len(writes) < MaxWrites
           /\ \E n \in 1..N, shared \in BOOLEAN :
                LET name == <<"A", "B", "C">>[Len(writes) + 1]
                    s == Write(heap, file, IF shared THEN cache ELSE {}, name, n)
                IN /\ file' = s.ents /\ cache' = (IF shared THEN s.cache ELSE cache)
                   /\ writes' = Append(writes, [name |-> name, node |-> n, shared |-> shared])
           /\ UNCHANGED <<heap, hist>>
Spec == Init /\ [][DoWrite]_vars
E == {file[k] : k \in DOMAIN file}
Fresh == \A k, j \in DOMAIN file : file[k].path = file[j].path => k = j
\* What is restored is the object that was written, wherever it is stored.
Right == \A e \in E : \E d \in E : d.path = e.loc /\ d.loc = e.loc /\ d.node = e.node
Stripped == \A e \in E : heap[e.node].kind \in {"leaf", "val", "list"}
\* Objects to be stored once are stored once by writes with a common cache.
SharedNames == {writes[k].name : k \in {j \in DOMAIN writes : writes[j].shared}}
Once == \A e, d \in E : (e.node = d.node /\ heap[e.node].kind = "leaf" /\ ~e.un /\ ~d.un
                         /\ ({e.path[1], d.path[1]} \subseteq SharedNames \/ e.path[1] = d.path[1])) => e.loc = d.loc
\* The members of what is stored are there.
Members == \A e \in E : (e.loc = e.path /\ heap[e.node].kind = "list") =>
             \A k \in DOMAIN heap[e.node].kids : \E d \in E : d.path = Append(e.path, heap[e.node].kids[k][1])
                                                              /\ d.node = Strip(heap, heap[e.node].kids[k][2])
\* Nothing in an uncached subtree is shared with the outside.
Apart == \A e \in E : e.un => \E d \in E : d.path = e.loc /\ d.un
SimInit == heap = <<>> /\ file = <<>> /\ cache = {} /\ writes = <<>> /\ hist = <<>>
SimNext == /\ Len(hist) < MaxHist /\ UNCHANGED <<heap, file, cache, writes>>
           /\ hist' = Append(hist, [kind |-> <<"leaf", "val", "list", "list", "cached", "uncached", "val", "list", "leaf", "cached", "val", "list">>[RandomElement((1..12) \ {-Len(hist)})],
                                    w |-> RandomElement((0..9999) \ {-Len(hist)})])
SimSpec == SimInit /\ [][SimNext]_vars
EmitHist == Len(hist) = MaxHist => PrintT(<<"@beh", ToJson(hist)>>)
===========================================================================
