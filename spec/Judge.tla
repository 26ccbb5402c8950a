------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Trace/observation judge.  A run of the real code is recorded as a       *)
(* sequence of JSON lines (one observed case per line).  Verdict(c) is the *)
(* specification's opinion of case c: "ok", or the reason why no           *)
(* behaviour of the specification explains what was observed.              *)
(* The state graph is start -> chunk -> case, so that TLC's workers judge  *)
(* chunks in parallel; every case is one distinct state, which lets the    *)
(* runner check that all of them were judged.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

Cases   == ndJsonDeserialize(IOEnv.CASES)
NCases  == Len(Cases)
NChunks == 64

VARIABLES idx, verdict
jvars == <<idx, verdict>>

JInit == idx = 0 /\ verdict = "start"

Chunk == /\ idx = 0
         /\ \E k \in 1..NChunks : k <= NCases /\ idx' = -k
         /\ verdict' = "chunk"

JudgeCase ==
    /\ idx < 0
    /\ \E q \in 0..(NCases \div NChunks) :
          LET i == q * NChunks - idx
          IN  /\ i <= NCases
              /\ idx' = i
              /\ verdict' = IF Cases[i].crash # "" THEN Cases[i].crash ELSE Verdict(Cases[i])
              /\ \/ verdict' = "ok"
                 \/ PrintT("BAD " \o ToString(Cases[i].id) \o " " \o verdict')

JNext == Chunk \/ JudgeCase
JSpec == JInit /\ [][JNext]_jvars
=============================================================================
