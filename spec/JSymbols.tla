------------------------------ MODULE JSymbols ------------------------------
(***************************************************************************)
(* Judge for P04.  A history of set operations on registers was executed   *)
(* by the real library, which logged the ranges of the affected register   *)
(* after every step; then the registers were entered in a symbol map, made *)
(* disjoint and looked up in the translation tables.  The meaning of the   *)
(* history is evaluated symbol by symbol, at every symbol where any range  *)
(* involved begins or ends, which decides it for all symbols.              *)
(***************************************************************************)
EXTENDS Automata, Judge

MaxSym == 2147483647

In(lo, hi, p) == lo <= p /\ p < hi
\* the effect of one operation on the membership of symbol p in the registers
Apply(v, op, p) ==
    [v EXCEPT ![op.dst] =
        CASE op.op = "or"    -> v[op.dst] \/ In(op.lo, op.hi, p)
          [] op.op = "not"   -> v[op.dst] /\ ~In(op.lo, op.hi, p)
          [] op.op = "and"   -> v[op.dst] /\ In(op.lo, op.hi, p)
          [] op.op = "inv"   -> ~v[op.dst]
          [] op.op = "orS"   -> v[op.dst] \/ v[op.src]
          [] op.op = "notS"  -> v[op.dst] /\ ~v[op.src]
          [] op.op = "andS"  -> v[op.dst] /\ v[op.src]
          [] op.op = "copy"  -> v[op.src]
          [] op.op = "range" -> In(op.lo, op.hi, p)]

RECURSIVE HistoryOK(_, _, _, _, _)
\* membership after every step is what was logged
HistoryOK(ops, log, i, v, p) ==
    IF i > Len(ops) THEN TRUE
    ELSE LET w == Apply(v, ops[i], p)
         IN  Has(log[i], p) = w[ops[i].dst] /\ HistoryOK(ops, log, i + 1, w, p)
RECURSIVE Final(_, _, _, _)
Final(ops, i, v, p) == IF i > Len(ops) THEN v ELSE Final(ops, i + 1, Apply(v, ops[i], p), p)

BoundsOf(rs) == UNION { {rs[k][1], rs[k][2]} : k \in 1..Len(rs) }

SymVerdict(c) ==
    LET o == c.obs
        K == c.k
        none == [r \in 1..K |-> FALSE]
        opB == UNION { {c.ops[i].lo, c.ops[i].hi} : i \in 1..Len(c.ops) }
        pts == { p \in {0} \cup opB \cup UNION { BoundsOf(o.log[i]) : i \in 1..Len(o.log) }
                          \cup UNION { BoundsOf(o.new[i]) : i \in 1..Len(o.new) } : p >= 0 /\ p < MaxSym }
        fin == [p \in pts |-> Final(c.ops, 1, none, p)]
        same(a, b) == \A p \in pts : fin[p][a] = fin[p][b]
        R == 1..K
        newOf(r) == RangeSet(o.map[r])               \* indices (from 1) of the new sets of register r
    IN  IF Len(o.log) # Len(c.ops) THEN "incomplete log"
        ELSE IF ~(\A p \in pts : HistoryOK(c.ops, o.log, 1, none, p)) THEN "an operation has the wrong members"
        ELSE IF ~(\A r \in R, i \in 1..Len(c.probe) :
                    o.has[r][i] = (LET p == c.probe[i] IN Final(c.ops, 1, none, p)[r])) THEN "membership test is wrong"
        ELSE IF ~(\A r \in R : o.empty[r] = (\A p \in pts : ~fin[p][r])) THEN "emptiness test is wrong"
        ELSE IF ~(\A a, b \in R : o.eq[a][b] = same(a, b)) THEN "equality is not equality of sets"
        ELSE IF ~(\A a, b \in R : /\ (o.lt[a][b] => ~same(a, b))
                                  /\ (same(a, b) \/ (o.lt[a][b] # o.lt[b][a]))
                                  /\ o.le[a][b] = (o.lt[a][b] \/ same(a, b))
                                  /\ o.ne[a][b] = ~o.eq[a][b]
                                  /\ o.gt[a][b] = ~o.le[a][b] /\ o.ge[a][b] = ~o.lt[a][b])
             THEN "the order is not total"
        ELSE IF ~(\A a, b, d \in R : o.lt[a][b] /\ o.lt[b][d] => o.lt[a][d]) THEN "the order is not transitive"
        ELSE IF ~(\A a, b \in R : (o.ids[a] = o.ids[b]) = same(a, b)) THEN "identifiers do not identify sets"
        ELSE IF ~(\A a \in R : o.found[a] = o.ids[a] /\ \A p \in pts : Has(o.back[a], p) = fin[p][a])
             THEN "an identifier does not give its set back"
        ELSE IF \E i, j \in 1..Len(o.new) : i # j /\ \E p \in pts : Has(o.new[i], p) /\ Has(o.new[j], p)
             THEN "deduplicated sets overlap"
        ELSE IF ~(\A r \in R : \A p \in pts : fin[p][r] = (\E i \in newOf(r) : Has(o.new[i], p)))
             THEN "a set is not the union of the sets it was split into"
        ELSE IF o.copynew # o.new \/ o.copymap # o.map THEN "a copied map differs"
        ELSE IF o.dups THEN "the deduplicated map claims to have duplicates"
        ELSE IF ~(\A i \in 1..Len(c.probe) :
                    LET p == c.probe[i]
                        S == { j \in 1..Len(o.new) : Has(o.new[j], p) }
                        want == IF S = {} THEN -1 ELSE (CHOOSE j \in S : TRUE) - 1
                    IN  /\ o.lookup[i] = want /\ o.lookupcopy[i] = want
                        /\ (p < 65536 => o.lookupw[i] = want)
                        /\ (p < 256 => o.lookupc[i] = want))
             THEN "table lookup gives the wrong set"
        ELSE "ok"
=============================================================================
