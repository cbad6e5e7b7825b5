------------------------------- MODULE Fields -------------------------------
(* Sets of dependent fields restricted to regions of a mesh (mlmc.random.correlated_field),  *)
(* random fields by themselves, and the mesh files that carry both (mlmc.tool.gmsh_io).      *)
(*                                                                                           *)
(* A field definition: [n, kind, regs, c, mu, sg, rf, log, fn, par]                          *)
(*   kind "const": value c;  "rand": mu + sg * (16 * W(point) + draw), or its exponential;   *)
(*   "func": fn of the values of its parameters at the same point (names or numbers).        *)
(* The random fields of the harness draw one fresh number per realization and take a         *)
(* different value in every point, so that a value names its point and its realization.      *)
EXTENDS Util

W(p) == p[1] + 8 * p[2]
Apply(fn, v) == CASE fn = "sum" -> SumSeqR(v)
                  [] fn = "lin" -> RAdd(RMul(RatI(3), v[1]), RNeg(v[Len(v)]))
                  [] fn = "prod" -> IF Len(v) = 1 THEN RMul(v[1], RatI(2)) ELSE RMul(v[1], v[2])
Def(defs, name) == defs[CHOOSE k \in DOMAIN defs : defs[k].n = name]
Inside(d, reg) == d.regs = <<>> \/ reg \in Rng(d.regs)
\* value of a field in point i for the draws D (one number per random field)
RECURSIVE Val(_, _, _, _)
Val(defs, d, p, D) ==
    CASE d.kind = "const" -> d.c
      [] d.kind = "rand" -> RAdd(d.mu, RMul(d.sg, RatI(16 * W(p) + D[d.n])))
      [] d.kind = "func" ->
           Apply(d.fn, [j \in DOMAIN d.par |->
                          IF d.par[j].n = "" THEN d.par[j].c ELSE Val(defs, Def(defs, d.par[j].n), p, D)])
RandNames(defs) == {defs[k].n : k \in {k \in DOMAIN defs : defs[k].kind = "rand"}}
\* the draws of this call: one per random field, no two alike
Draws(defs, lo, hi) == {D \in [RandNames(defs) -> lo..(hi - 1)] : \A a, b \in DOMAIN D : D[a] = D[b] => a = b}

\* what the file keeps of a mesh: nodes, elements, physical groups (all as functions)
Same(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
=============================================================================
