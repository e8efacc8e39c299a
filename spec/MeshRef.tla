---------------------------- MODULE MeshRef ----------------------------
(* Reference elements: local edges and faces by local vertex (0-based),   *)
(* as documented in the users guide.                                      *)
EXTENDS Integers, Sequences

RefEdges(desc) ==
  CASE desc = "1_2" -> <<>>
    [] desc = "2_3" -> << <<0, 1>>, <<1, 2>>, <<2, 0>> >>
    [] desc = "2_4" -> << <<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 0>> >>
    [] desc = "3_4" -> << <<0, 1>>, <<1, 2>>, <<2, 0>>, <<0, 3>>, <<1, 3>>,
                          <<2, 3>> >>
    [] desc = "3_6" -> << <<0, 1>>, <<1, 2>>, <<2, 0>>, <<0, 3>>, <<1, 4>>,
                          <<2, 5>>, <<3, 4>>, <<4, 5>>, <<5, 3>> >>
    [] desc = "3_8" -> << <<0, 1>>, <<1, 2>>, <<2, 3>>, <<3, 0>>, <<4, 5>>,
                          <<5, 6>>, <<6, 7>>, <<7, 4>>, <<0, 4>>, <<1, 5>>,
                          <<2, 6>>, <<3, 7>> >>
RefFaces(desc) ==
  CASE desc = "3_4" -> << <<0, 2, 1>>, <<0, 3, 2>>, <<0, 1, 3>>, <<1, 2, 3>> >>
    [] desc = "3_6" -> << <<0, 2, 1>>, <<0, 3, 5, 2>>, <<0, 1, 4, 3>>,
                          <<1, 2, 5, 4>>, <<3, 4, 5>> >>
    [] desc = "3_8" -> << <<0, 3, 2, 1>>, <<0, 4, 7, 3>>, <<0, 1, 5, 4>>,
                          <<4, 5, 6, 7>>, <<1, 2, 6, 5>>, <<3, 7, 6, 2>> >>
    [] OTHER -> <<>>
RefVerts(desc) == CASE desc = "1_2" -> 2 [] desc = "2_3" -> 3 [] desc = "2_4" -> 4
                    [] desc = "3_4" -> 4 [] desc = "3_6" -> 6 [] desc = "3_8" -> 8
\* Local entities of dimension d (as sequences of local vertices).
RefEnts(desc, tdim, d) ==
  IF d = 0 THEN [k \in 1..RefVerts(desc) |-> <<k - 1>>]
  ELSE IF d = tdim THEN << [k \in 1..RefVerts(desc) |-> k - 1] >>
  ELSE IF d = 1 THEN RefEdges(desc) ELSE RefFaces(desc)
\* Global vertex sets of the local entities of dimension d of a cell.
CellEnts(desc, tdim, conn, d) ==
  LET re == RefEnts(desc, tdim, d) IN
  [k \in DOMAIN re |-> {conn[re[k][j] + 1] : j \in DOMAIN re[k]}]
=========================================================================
