------------------------------- MODULE JSets -------------------------------
(* Judge for P07: FIRST and FOLLOW sets. *)
EXTENDS Grammar, Judge

SetsVerdict(c) ==
    LET G == Plain(c.syms)
        FO == Follow(c.syms, G)
        fi(s) == Rng(c.obs.first[s])
        fo(s) == Rng(c.obs.follow[s]) \ {EPS}
        wantfi(s) == G.first[s] \cup (IF s \in G.nu THEN {EPS} ELSE {})
        b1 == { s \in Rng(c.order) : fi(s) # wantfi(s) }
        \* whether a repetition counts as followed by its own next round is left open; what is inside it is followed by it
        b2 == { s \in G.N : IF c.syms[s].k \in {"rep", "star"} THEN ~(fo(s) \subseteq FO[s] /\ FO[s] \ G.first[s] \subseteq fo(s))
                           ELSE fo(s) # FO[s] }
        say(s) == c.syms[s].k \o " " \o ToString(s)
    IN  IF b1 # {} THEN LET s == CHOOSE x \in b1 : TRUE IN "FIRST of " \o say(s) \o " is " \o ToString(fi(s)) \o ", expected " \o ToString(wantfi(s))
        ELSE IF b2 # {} THEN LET s == CHOOSE x \in b2 : TRUE IN "FOLLOW of " \o say(s) \o " is " \o ToString(fo(s)) \o ", expected " \o ToString(FO[s])
        ELSE "ok"
=============================================================================
