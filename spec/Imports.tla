------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* Reading definition files and the languages in them, as the compiler     *)
(* does it: a stack of files whose items are still to be gone through, the *)
(* set of files already opened (by their real path, a file has several     *)
(* names), the languages found; then, for a language, the walk along the   *)
(* languages it inherits from. Against: every file that is reachable by    *)
(* imports is gone through exactly once, every missing one is reported     *)
(* once, a language defined k times is reported k - 1 times, and a         *)
(* language is refused iff it inherits from a loop.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Files, Langs, NoFile
\* Files: real paths; every file can be imported by two names
Root == CHOOSE f \in Files : f # NoFile
None == "none"

VARIABLES body,   \* file -> sequence of items: <<"imp", name>> or <<"lang", language>>
          inh,    \* language -> language or none
          stack, opened, read, found, doubles, missing, pc,
          lang, walk, seen, refused
vars == <<body, inh, stack, opened, read, found, doubles, missing, pc, lang, walk, seen, refused>>

\* a: by which of its names a file is imported
Items == [ k : {"imp"}, n : Files, a : {1, 2} ] \cup [ k : {"lang"}, n : Langs, a : {0} ]
Bodies == UNION { [ 1..l -> Items ] : l \in 0..2 }

Init == /\ \E b \in [ Files \ {NoFile} -> Bodies ] : body = [ f \in Files |-> IF f = NoFile THEN <<>> ELSE b[f] ]
        /\ inh \in [ Langs -> Langs \cup {None} ]
        /\ stack = << <<Root, 1>> >> /\ opened = {Root} /\ read = [ f \in Files |-> 0 ]
        /\ found = [ l \in Langs |-> None ] /\ doubles = [ l \in Langs |-> 0 ] /\ missing = [ f \in Files |-> 0 ]
        /\ pc = "import" /\ lang = None /\ walk = None /\ seen = {} /\ refused = {}

\* the file on top is gone through completely; what it imports is pushed as it is met (and opened then)
Step == /\ pc = "import" /\ stack # <<>>
        /\ LET top == stack[Len(stack)]
               f == top[1]  i == top[2]
           IN  IF i > Len(body[f]) THEN /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                                        /\ read' = [ read EXCEPT ![f] = @ + 1 ]
                                        /\ UNCHANGED <<opened, found, doubles, missing>>
               ELSE LET it == body[f][i]
                        on == [ stack EXCEPT ![Len(stack)] = <<f, i + 1>> ]
                    IN  IF it.k = "lang" THEN
                             /\ stack' = on /\ UNCHANGED <<opened, read, missing>>
                             /\ IF found[it.n] # None THEN doubles' = [ doubles EXCEPT ![it.n] = @ + 1 ] /\ UNCHANGED found
                                ELSE found' = [ found EXCEPT ![it.n] = f ] /\ UNCHANGED doubles
                        ELSE LET g == it.n IN
                             /\ UNCHANGED <<found, doubles, read>>
                             /\ IF g \in opened THEN stack' = on /\ UNCHANGED <<opened, missing>>
                                ELSE /\ opened' = opened \cup {g}
                                     /\ IF g = NoFile THEN missing' = [ missing EXCEPT ![g] = @ + 1 ] /\ stack' = on
                                        \* below the file in hand: it is finished first
                                        ELSE stack' = SubSeq(on, 1, Len(on) - 1) \o << <<g, 1>>, on[Len(on)] >> /\ UNCHANGED missing
        /\ UNCHANGED <<body, inh, pc, lang, walk, seen, refused>>

Imported == /\ pc = "import" /\ stack = <<>> /\ pc' = "next" /\ UNCHANGED <<body, inh, stack, opened, read, found, doubles, missing, lang, walk, seen, refused>>

\* the languages are taken in turn; the walk stops where it has been
VARIABLE done
allvars == <<vars, done>>
Pick == /\ pc = "next"
        /\ IF done = { l \in Langs : found[l] # None } THEN pc' = "end" /\ UNCHANGED <<lang, walk, seen, done>>
           ELSE \E l \in { x \in Langs : found[x] # None } \ done :
                    lang' = l /\ walk' = (IF inh[l] = None THEN None ELSE IF found[inh[l]] = None THEN None ELSE inh[l]) /\ seen' = {} /\ done' = done \cup {l} /\ pc' = "walk"
        /\ UNCHANGED <<body, inh, stack, opened, read, found, doubles, missing, refused>>
Walk == /\ pc = "walk"
        /\ IF walk = None THEN pc' = "next" /\ UNCHANGED <<walk, seen, refused>>
           ELSE IF walk \in seen THEN pc' = "next" /\ refused' = refused \cup {lang} /\ UNCHANGED <<walk, seen>>
           ELSE /\ seen' = seen \cup {walk} /\ walk' = (IF inh[walk] = None THEN None ELSE IF found[inh[walk]] = None THEN None ELSE inh[walk])
                /\ UNCHANGED <<pc, refused>>
        /\ UNCHANGED <<body, inh, stack, opened, read, found, doubles, missing, lang, done>>

AllInit == Init /\ done = {}
Next == \/ Step /\ UNCHANGED done
        \/ Imported /\ UNCHANGED done
        \/ Pick
        \/ Walk
        \/ pc = "end" /\ UNCHANGED allvars
Spec == AllInit /\ [][Next]_allvars /\ WF_allvars(Next)

(* --- what it should come to --- *)
Edges(f) == { body[f][i].n : i \in { j \in 1..Len(body[f]) : body[f][j].k = "imp" } }
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION { Edges(f) : f \in S } IN IF T = S THEN S ELSE Reach(T)
All == Reach({Root})
Times(l) == Cardinality({ <<f, i>> \in All \X (1..2) : i <= Len(body[f]) /\ body[f][i] = [ k |-> "lang", n |-> l, a |-> 0 ] })
Base(l) == IF inh[l] = None \/ found[inh[l]] = None THEN {} ELSE {inh[l]}
RECURSIVE Bases(_)
Bases(S) == LET T == S \cup UNION { Base(l) : l \in S } IN IF T = S THEN S ELSE Bases(T)
Looping(l) == \E x \in Bases(Base(l)) : x \in Bases(Base(x))

ReadOnce == pc # "import" => \A f \in Files \ {NoFile} : read[f] = (IF f \in All THEN 1 ELSE 0)
MissingOnce == pc # "import" => missing[NoFile] = (IF NoFile \in All THEN 1 ELSE 0)
Found == pc # "import" => \A l \in Langs : /\ (found[l] # None) = (Times(l) > 0)
                                           /\ doubles[l] = (IF Times(l) = 0 THEN 0 ELSE Times(l) - 1)
Refused == pc = "end" => refused = { l \in Langs : found[l] # None /\ Looping(l) }
Ends == <>(pc = "end")
=============================================================================
