---------------------------- MODULE ParserStack ----------------------------
(***************************************************************************)
(* The parser's stack: any number of references into one arena of cells,   *)
(* each cell pointing to the one below it; copies of a reference share     *)
(* what is below them.  Unused cells are found by collection when the      *)
(* arena runs full, and the arena grows when collection does not help.     *)
(* The abstract view gives every reference a stack of its own; the arena   *)
(* refines it: nothing done through one reference is seen through another. *)
(* An arena is freed with its last reference, and not before.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Handles, Values, Init0, MaxCells, MaxDepth

VARIABLES cells,    \* arena: sequence of [prev, val]; prev = -2 unused, -1 bottom
          next,     \* where the search for a free cell starts
          free,     \* the number of cells believed to be free
          at,       \* live handles -> cell
          abs       \* live handles -> the stack it should see
vars == <<cells, next, free, at, abs>>

Empty == [ prev |-> -2, val |-> 0 ]
RECURSIVE Below(_, _)
Below(C, i) == IF C[i].prev < 0 THEN {i} ELSE {i} \cup Below(C, C[i].prev)
RECURSIVE Chain(_, _)
Chain(C, i) == IF C[i].prev < 0 THEN <<C[i].val>> ELSE Append(Chain(C, C[i].prev), C[i].val)

Used(C, a) == UNION { Below(C, a[h]) : h \in DOMAIN a }

\* an arena with at least one free cell: <<cells, free>>
Room ==
    IF free > 0 THEN <<cells, free>>
    ELSE LET live == Used(cells, at)
             swept == [ i \in DOMAIN cells |-> IF i \in live THEN cells[i] ELSE Empty ]
             n == Len(cells) - Cardinality(live)
         IN  IF n < Init0 \div 2 THEN <<swept \o [ i \in 1..Len(cells) |-> Empty ], n + Len(cells)>>
             ELSE <<swept, n>>

FirstFree(C, from) ==
    LET k == CHOOSE d \in 0..(Len(C) - 1) : C[((from - 1 + d) % Len(C)) + 1].prev = -2
                     /\ \A e \in 0..(d - 1) : C[((from - 1 + e) % Len(C)) + 1].prev # -2
    IN  ((from - 1 + k) % Len(C)) + 1

Init == /\ cells = [ i \in 1..Init0 |-> IF i = 1 THEN [ prev |-> -1, val |-> 0 ] ELSE Empty ]
        /\ next = (1 % Init0) + 1 /\ free = Init0 - 1
        /\ at = [ h \in {CHOOSE x \in Handles : TRUE} |-> 1 ]
        /\ abs = [ h \in DOMAIN at |-> <<0>> ]

Push(h, v) == /\ Len(abs[h]) < MaxDepth
              /\ LET r == Room
                     i == FirstFree(r[1], next)
                 IN  /\ Len(r[1]) <= MaxCells
                     /\ cells' = [ r[1] EXCEPT ![i] = [ prev |-> at[h], val |-> v ] ]
                     /\ free' = r[2] - 1 /\ next' = (i % Len(r[1])) + 1
                     /\ at' = [ at EXCEPT ![h] = i ] /\ abs' = [ abs EXCEPT ![h] = Append(@, v) ]
Pop(h) == /\ Len(abs[h]) > 1
          /\ at' = [ at EXCEPT ![h] = cells[@].prev ] /\ abs' = [ abs EXCEPT ![h] = SubSeq(@, 1, Len(@) - 1) ]
          /\ UNCHANGED <<cells, next, free>>
Copy(h, g) == /\ g \notin DOMAIN at
              /\ at' = [ x \in DOMAIN at \cup {g} |-> IF x = g THEN at[h] ELSE at[x] ]
              /\ abs' = [ x \in DOMAIN at \cup {g} |-> IF x = g THEN abs[h] ELSE abs[x] ]
              /\ UNCHANGED <<cells, next, free>>
Drop(h) == /\ Cardinality(DOMAIN at) > 1
           /\ at' = [ x \in DOMAIN at \ {h} |-> at[x] ] /\ abs' = [ x \in DOMAIN at \ {h} |-> abs[x] ]
           /\ UNCHANGED <<cells, next, free>>
Assign(h, g) == /\ h # g /\ at' = [ at EXCEPT ![h] = at[g] ] /\ abs' = [ abs EXCEPT ![h] = abs[g] ]
                /\ UNCHANGED <<cells, next, free>>

Next == \E h \in DOMAIN at : \/ \E v \in Values : Push(h, v)
                             \/ Pop(h) \/ Drop(h)
                             \/ \E g \in Handles : Copy(h, g)
                             \/ \E g \in DOMAIN at : Assign(h, g)
Spec == Init /\ [][Next]_vars

Independent == \A h \in DOMAIN at : Chain(cells, at[h]) = abs[h]
Accounting  == /\ free = Cardinality({ i \in DOMAIN cells : cells[i].prev = -2 })
               /\ \A i \in Used(cells, at) : cells[i].prev # -2
=============================================================================
