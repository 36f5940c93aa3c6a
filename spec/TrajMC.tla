------------------------------- MODULE TrajMC --------------------------------
(* Every history of assignments to a trajectory's data; interpolation passes   *)
(* through the nodes, stays between them when linear, and linear and cubic     *)
(* agree on straight lines.                                                    *)
EXTENDS Traj, Json, IOUtils
CONSTANT Depth
OutDir == IOEnv.OUTDIR
Polys == << << 1, 2, 0, 0 >>, << 0, -1, 1, 0 >>, << 2, 0, -1, 1 >>, << -3, 0, 0, 0 >> >>
Meshes == << << 0, 1, 2, 3 >>, << 0, 2, 3, 4, 6 >>, << 3, 1, 0, -1 >>, << -2, 0, 1, 2, 4, 5 >> >>
Cols == {<< >>, << 1 >>, << 3 >>, << 2, 3 >>, << 1, 2, 4 >>}
Ops == [op : {"y", "q", "u"}, cols : Cols, vec : BOOLEAN]
       \cup [op : {"interp"}, kind : {"linear", "cubic", "first"}]
       \cup [op : {"mesh"}, mesh : {1, 2, 3, 4}]
VARIABLES obj, hist
vars == << obj, hist >>
Fill(cols) == [i \in DOMAIN cols |-> Polys[cols[i]]]
Apply(o, op) == CASE op.op = "mesh" -> [o EXCEPT !.mesh = Meshes[op.mesh]]
                  [] op.op = "interp" -> [o EXCEPT !.interp = op.kind]
                  [] OTHER -> [o EXCEPT ![op.op] = Fill(op.cols)]
Init == /\ \E m \in {1, 3} : obj = [Blank EXCEPT !.mesh = Meshes[m], !.y = Fill(<< 2, 3 >>)]
        /\ hist = << >>
Legal(op) == ~(op.op = "y" /\ op.cols = << >>) /\ ~(op.op \in {"y", "q", "u"} /\ op.vec /\ Len(op.cols) # 1)
Next == Len(hist) < Depth /\ \E op \in Ops : Legal(op) /\ obj' = Apply(obj, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
Times(o) == {4 * o.mesh[i] + d : i \in DOMAIN o.mesh, d \in {0, 1, 2}} \cap {tau \in -8 .. 24 : Inside(o.mesh, tau)}
Through == obj.interp \in {"linear", "cubic"} =>
    \A p \in {"y", "q", "u"} : \A i \in DOMAIN obj.mesh : \A j \in DOMAIN obj[p] :
        Value(obj.interp, obj[p][j], obj.mesh, 4 * obj.mesh[i]) = 64 * Row(obj, p, i - 1)[j]
Lines == \A tau \in Times(obj) : Linear(Polys[1], obj.mesh, tau) = P64(Polys[1], tau)
Between == \A tau \in Times(obj) : LET b == Bracket(obj.mesh, tau)  l == P64(Polys[3], 4 * obj.mesh[b[1]])
                                       r == P64(Polys[3], 4 * obj.mesh[b[2]])  v == Linear(Polys[3], obj.mesh, tau)
                                   IN (l <= v /\ v <= r) \/ (r <= v /\ v <= l)
Emit == (Len(hist) = Depth /\ OutDir # "") =>
    Serialize(ToJson([mesh |-> obj.mesh, hist |-> hist]) \o "\n", OutDir \o "/hist.ndjson",
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >>]).exitValue = 0
=============================================================================
