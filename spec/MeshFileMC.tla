----------------------------- MODULE MeshFileMC -----------------------------
(* Reading a written file gives the mesh and data again: every small mesh, every order of    *)
(* the sections, a section of another program anywhere.                                      *)
EXTENDS MeshFile
VARIABLES m, data, perm
Nds == {<<>>} \cup {<<[id |-> a, x |-> <<1, b, 2>>]>> : a \in {1, 7}, b \in {1, 2}} \cup {<<[id |-> 7, x |-> <<1, 1, 1>>], [id |-> 2, x |-> <<2, 1, 2>>]>>}
Els == {<<>>} \cup {<<[id |-> 3, t |-> t, tags |-> g, nodes |-> n]>> : t \in {1, 15}, g \in {<<4>>, <<4, 4>>, <<1, 2, 3>>}, n \in {<<7>>, <<2, 7>>}}
            \cup {<<[id |-> 9, t |-> 15, tags |-> <<5>>, nodes |-> <<2>>], [id |-> 1, t |-> 1, tags |-> <<5, 6>>, nodes |-> <<7, 2>>]>>}
Phs == {<<>>} \cup {<<[n |-> n, id |-> 4, dim |-> d]>> : n \in {"a b", ".c"}, d \in {0, 2}} \cup {<<[n |-> "a", id |-> 1, dim |-> 1], [n |-> "b", id |-> 1, dim |-> 2]>>}
Dt(n, i, t, nc, v) == [n |-> n, i |-> i, t |-> t, nc |-> nc, v |-> v]
One(id, v) == [id |-> id, v |-> v]
Dts == {<<>>, <<Dt("u", 0, 1, 1, <<One(3, <<1>>), One(1, <<2>>)>>)>>, <<Dt("u", 0, 1, 1, <<One(3, <<1>>)>>), Dt("u", 1, 2, 1, <<One(3, <<2>>)>>)>>,
        <<Dt("u", 0, 1, 2, <<One(3, <<1, 2>>)>>), Dt("v", 0, 1, 1, <<>>)>>}
Perms == {p \in [1..5 -> 1..5] : \A i, j \in 1..5 : p[i] = p[j] => i = j}
Init == /\ m \in [nodes : Nds, elems : Els, phys : Phs] /\ data \in Dts
        /\ perm = <<1, 2, 3, 4, 5>>
Next == /\ perm = <<1, 2, 3, 4, 5>> /\ perm' \in Perms /\ UNCHANGED <<m, data>>
Spec == Init /\ [][Next]_<<m, data, perm>>
Parts == <<WNodes(m), WElems(m), WPhys(m), Flat([k \in DOMAIN data |-> WData(data[k])]), Other>>
File == WHead \o Flat([k \in 1..5 |-> Parts[perm[k]]])
ReadsBack ==
    \E F \in {File} :
    /\ HeadOk(F)
    /\ ReadNodes(F) = {<<m.nodes[k].id, m.nodes[k].x>> : k \in DOMAIN m.nodes}
    /\ ReadElems(F) = {<<m.elems[k].id, m.elems[k].t, m.elems[k].tags, m.elems[k].nodes>> : k \in DOMAIN m.elems}
    /\ ReadPhys(F) = {<<m.phys[k].n, m.phys[k].id, m.phys[k].dim>> : k \in DOMAIN m.phys}
    /\ ReadData(F) = {<<data[k].n, data[k].i, data[k].t, {<<data[k].v[j].id, data[k].v[j].v>> : j \in DOMAIN data[k].v}>> : k \in DOMAIN data}
\* a file cut anywhere inside its sections is not a file of the same mesh
CutSeen == \E F \in {File} : \A n \in (Len(WHead) + 1)..(Len(F) - 1) : perm = <<5, 4, 3, 1, 2>> =>
             LET G == SubSeq(F, 1, n) IN No \in ReadElems(G)
=============================================================================
