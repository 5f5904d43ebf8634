------------------------------ MODULE C06Trace ------------------------------
(* Recorded submeshes tessellate the element.                                 *)
EXTENDS Submesh, Judge
MeshVerdict(e) ==
    LET fs == e.job.fs
        n == Len(e.nodes)
        cells == Force([i \in 1..Len(e.cells) |-> Force([v \in 1..Len(e.cells[i]) |-> e.nodes[e.cells[i][v] + 1]])])
    IN  IF e.cls # "ok" THEN <<"available">>
        ELSE IF \E i \in DOMAIN e.cells : \E v \in DOMAIN e.cells[i] : e.cells[i][v] \notin 0..(n - 1) THEN <<"indices">>
        ELSE IF \E i \in DOMAIN e.cells : ~CellOK(fs, cells[i]) THEN <<"cells">>
        ELSE Failing(<< <<"volume", ISum([i \in 1..Len(cells) |-> CellVol(fs, cells[i])]) = Volume(fs)>>,
                        <<"conforming", Conforming(fs, cells)>>,
                        <<"listing unchanged", e.kept>> >>)
=============================================================================
