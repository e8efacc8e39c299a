---------------------------- MODULE MeshFileTrace ----------------------------
(* Meshes written, read, copied, pickled and restricted by the real code.  *)
EXTENDS MeshFile, TraceLib
VARIABLES t, i
Pre(k, j) == IF j = 1 THEN Trace[k].m ELSE Trace[k].ev[j - 1].q
Omits(f) == f \notin {"hdf5", "hdf5-xdmf", "xyz"}
File(m, e) ==
  LET cp == Caps(e.f) IN
  IF ~e.ok THEN << <<"refused", ~Expressible(cp, m, e.omit)>> >>
  ELSE IF Expressible(cp, m, e.omit) THEN Keeps(cp, m, e.q, e.omit, Omits(e.f))
  ELSE << <<"entities", Len(e.q.x) = Len(m.x) /\ (e.omit \/ SameCells(m.cells, e.q.cells, FALSE))>> >>
Data(m, e) ==
  IF ~e.ok \/ e.dc = <<>> THEN <<>>
  ELSE << <<"cell_data", Len(e.dc) = Len(e.num) /\ \A j \in DOMAIN e.dc : e.dc[j] \in 0..(Len(e.num) - 1)
                         /\ e.num[e.dc[j] + 1] = e.q.cells[j]>>,
          <<"vertex_data", e.dv = [j \in DOMAIN m.x |-> j - 1]>> >>
Clauses(k, j) ==
  LET m == Pre(k, j) e == Trace[k].ev[j] IN
  CASE e.op = "file" -> File(m, e) \o Data(m, e)
    [] e.op \in {"copy", "pickle"} -> (IF e.ok THEN CopyOf(m, e.q) ELSE << <<"copied", FALSE>> >>)
    [] e.op = "sub" -> (IF e.ok THEN SubOf(m, e.q, e.num, e.sel, e.loc) ELSE << <<"restricted", FALSE>> >>)
TInit == t \in 1..NT /\ i = 1
TNext == /\ i <= NEv(t) /\ Report(t, i, Bad(Clauses(t, i)))
         /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_<<t, i>>
===========================================================================
