------------------------------ MODULE MeshFile ------------------------------
(* The ASCII mesh file, version 2.2, as the text a program reads: a sequence of lines, a     *)
(* line a sequence of words [i: the word as an integer or -1, f: as a number of the table of *)
(* numbers or 0, s: as text].  Read gives the mesh and data of a file, Write a file of them. *)
EXTENDS Util

WI(n) == [i |-> n, f |-> 0, s |-> ""]
WF(n) == [i |-> -1, f |-> n, s |-> ""]
WS(t) == [i |-> -1, f |-> 0, s |-> t]
No == <<"no">>
Mark(t) == <<WS(t)>>
IsMark(ln, t) == Len(ln) = 1 /\ ln[1].s = t
\* ------------------------------------------------------------------ writing
Section(n, body) == <<Mark("$" \o n)>> \o body \o <<Mark("$End" \o n)>>
WHead == Section("MeshFormat", <<<<WS("2.2"), WI(0), WI(8)>>>>)
WNodes(m) == Section("Nodes", <<<<WI(Len(m.nodes))>>>> \o [k \in DOMAIN m.nodes |-> <<WI(m.nodes[k].id)>> \o [c \in 1..3 |-> WF(m.nodes[k].x[c])]])
WElems(m) == Section("Elements", <<<<WI(Len(m.elems))>>>> \o [k \in DOMAIN m.elems |->
                LET e == m.elems[k] IN <<WI(e.id), WI(e.t), WI(Len(e.tags))>> \o [j \in DOMAIN e.tags |-> WI(e.tags[j])] \o [j \in DOMAIN e.nodes |-> WI(e.nodes[j])]])
WPhys(m) == Section("PhysicalNames", <<<<WI(Len(m.phys))>>>> \o [k \in DOMAIN m.phys |-> <<WI(m.phys[k].dim), WI(m.phys[k].id), WS(m.phys[k].n)>>])
WData(d) == Section("ElementData", <<<<WI(1)>>, <<WS(d.n)>>, <<WI(1)>>, <<WF(d.t)>>, <<WI(3)>>, <<WI(d.i)>>, <<WI(d.nc)>>, <<WI(Len(d.v))>>>>
                                    \o [k \in DOMAIN d.v |-> <<WI(d.v[k].id)>> \o [c \in DOMAIN d.v[k].v |-> WF(d.v[k].v[c])]])
Other == Section("Periodic", <<<<WI(1)>>, <<WI(0), WI(1), WI(2)>>>>)
\* ------------------------------------------------------------------ reading
Starts(F, n) == {i \in DOMAIN F : IsMark(F[i], "$" \o n)}
EndOf(F, i, n) == IF \E j \in DOMAIN F : j > i /\ IsMark(F[j], "$End" \o n)
                  THEN CHOOSE j \in DOMAIN F : j > i /\ IsMark(F[j], "$End" \o n) /\ \A k \in (i + 1)..(j - 1) : ~IsMark(F[k], "$End" \o n)
                  ELSE 0
Body(F, i, n) == SubSeq(F, i + 1, EndOf(F, i, n) - 1)
Ints(ln) == [j \in DOMAIN ln |-> ln[j].i]
Nums(ln) == [j \in DOMAIN ln |-> ln[j].f]
\* a list that announces its length
Counted(B) == Len(B) >= 1 /\ Len(B[1]) = 1 /\ B[1][1].i = Len(B) - 1
NodeOk(ln) == Len(ln) = 4 /\ ln[1].i >= 0 /\ \A c \in 2..4 : ln[c].f > 0
ElemOk(ln) == Len(ln) >= 4 /\ ln[3].i >= 0 /\ Len(ln) > 3 + ln[3].i /\ \A j \in DOMAIN ln : ln[j].i >= 0
PhysOk(ln) == Len(ln) = 3 /\ ln[1].i >= 0 /\ ln[2].i >= 0
RNode(ln) == <<ln[1].i, <<ln[2].f, ln[3].f, ln[4].f>>>>
RElem(ln) == LET nt == ln[3].i IN <<ln[1].i, ln[2].i, Ints(SubSeq(ln, 4, 3 + nt)), Ints(SubSeq(ln, 4 + nt, Len(ln)))>>
RPhys(ln) == <<ln[3].s, ln[2].i, ln[1].i>>
\* the items of the one section n, or No when it is not a legal section
List(F, n, Ok(_), Rd(_)) ==
    LET S == Starts(F, n) IN
    IF Cardinality(S) # 1 THEN {No}
    ELSE LET i == CHOOSE i \in S : TRUE IN
         IF EndOf(F, i, n) = 0 THEN {No}
         ELSE LET B == Body(F, i, n) IN
              IF ~Counted(B) \/ \E k \in 2..Len(B) : ~Ok(B[k]) THEN {No} ELSE {Rd(B[k]) : k \in 2..Len(B)}
HeadOk(F) == LET S == Starts(F, "MeshFormat") IN
             \E i \in S : EndOf(F, i, "MeshFormat") # 0 /\ \E B \in {Body(F, i, "MeshFormat")} :
                Len(B) = 1 /\ Len(B[1]) = 3 /\ B[1][1].s \in {"2", "2.0", "2.1", "2.2"} /\ B[1][2].i = 0 /\ B[1][3].i = 8
ReadNodes(F) == List(F, "Nodes", NodeOk, RNode)
ReadElems(F) == List(F, "Elements", ElemOk, RElem)
ReadPhys(F) == IF Starts(F, "PhysicalNames") = {} THEN {} ELSE List(F, "PhysicalNames", PhysOk, RPhys)
\* element data: string tags, real tags, integer tags (step, components, values), values
DataOk(B) == /\ Len(B) >= 8 /\ \A k \in 1..8 : Len(B[k]) = 1
             /\ B[1][1].i = 1 /\ B[3][1].i = 1 /\ B[5][1].i = 3
             /\ B[8][1].i = Len(B) - 8 /\ \A k \in 9..Len(B) : Len(B[k]) = 1 + B[7][1].i /\ B[k][1].i >= 0 /\ \A c \in 2..Len(B[k]) : B[k][c].f > 0
RData(B) == <<B[2][1].s, B[6][1].i, B[4][1].f, {<<B[k][1].i, Nums(Tail(B[k]))>> : k \in 9..Len(B)}>>
ReadData(F) == {LET e == EndOf(F, i, "ElementData") IN IF e = 0 THEN No ELSE LET B == Body(F, i, "ElementData") IN IF DataOk(B) THEN RData(B) ELSE No : i \in Starts(F, "ElementData")}
=============================================================================
