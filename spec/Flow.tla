-------------------------------- MODULE Flow --------------------------------
(* The simulation driven by an external program (mlmc.tool.flow_mc): meshes of the levels,   *)
(* one realization of the random fields for a fine and a coarse run, their results.          *)
(*   mesh  [nodes: Seq [id, x], elems: Seq [id, t, tags, nodes], phys: Seq [n, id, bc]]      *)
(*   plan  what the external program writes in one run: [out, rows: Seq [t, reg, f, fin]]    *)
EXTENDS Util

Node(m, id) == m.nodes[CHOOSE k \in DOMAIN m.nodes : m.nodes[k].id = id].x
RegionOf(m, id) == m.phys[CHOOSE k \in DOMAIN m.phys : m.phys[k].id = id]
Bulk(m) == {k \in DOMAIN m.elems : ~RegionOf(m, m.elems[k].tags[1]).bc}
Center(m, k) == LET ns == m.elems[k].nodes n == Len(ns) IN
                [c \in 1..3 |-> RatN(SumSeq([i \in 1..n |-> Node(m, ns[i])[c]]), n)]
Extent0(m, c) == \A j, k \in Bulk(m) : Center(m, j)[c] = Center(m, k)[c]
\* one direction without extent is left out of the points
DropAxis(m) == IF \E c \in 1..3 : Extent0(m, c) THEN CHOOSE c \in 1..3 : Extent0(m, c) /\ \A d \in 1..(c - 1) : ~Extent0(m, d) ELSE 0
Point(m, k) == LET x == Center(m, k) a == DropAxis(m) IN
               IF a = 0 THEN x ELSE [i \in 1..2 |-> x[IF i < a THEN i ELSE i + 1]]
\* the result of one run: the outflow at the first time
AtStart(rows) == {k \in DOMAIN rows : \A j \in 1..k : rows[j].t = 0}
Outlet(rows) == {k \in AtStart(rows) : rows[k].reg = ".bc_outflow"}
RunFails(p) == ~p.out \/ Outlet(p.rows) = {} \/ \E k \in Outlet(p.rows) : p.rows[k].fin > 0
RECURSIVE SumF(_, _)
SumF(rows, S) == IF S = {} THEN RatI(0) ELSE LET k == CHOOSE k \in S : TRUE IN RAdd(rows[k].f, SumF(rows, S \ {k}))
RunResult(p) == RNeg(SumF(p.rows, Outlet(p.rows)))
\* a level: its runs are the fine one and, above the lowest level, the coarse one
Fails(lev, plan) == RunFails(plan[1]) \/ (lev > 1 /\ RunFails(plan[2]))
Results(lev, plan) == <<RunResult(plan[1]), IF lev > 1 THEN RunResult(plan[2]) ELSE RatI(0)>>
NRuns(lev, plan) == IF lev = 1 \/ RunFails(plan[1]) THEN 1 ELSE 2
=============================================================================
