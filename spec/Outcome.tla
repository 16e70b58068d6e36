------------------------------ MODULE Outcome -------------------------------
(* What a run of pasm may look like, whatever its input: the recorded runs   *)
(* of a JSON file are checked against it.  A run is                          *)
(*   exit      its exit code, or -1 when a signal or a time limit ended it   *)
(*   messages  the lines on its error output, errors those that count errors *)
(*   object    the length of the object file, -1 when there is none          *)
(*   told      the length it says it has written, -1 when it says nothing    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS_INPUT)

VARIABLES i, state
vars == <<i, state>>
Init == i \in 1..Len(Runs) /\ state = "started"

(* a run ends in one of these ways and in no other *)
Accepts(r) == /\ r.exit = 0 /\ r.errors = 0
              /\ r.object >= 0 /\ r.told = r.object
Rejects(r) == r.exit \in 1..255 /\ r.messages > 0

Next == /\ state = "started" /\ i' = i
        /\ \/ Accepts(Runs[i]) /\ state' = "accepted"
           \/ Rejects(Runs[i]) /\ state' = "rejected"
           \/ ~Accepts(Runs[i]) /\ ~Rejects(Runs[i]) /\ state' = "unlawful"
Spec == Init /\ [][Next]_vars
OneEnd == ~(Accepts(Runs[i]) /\ Rejects(Runs[i]))
Report == state \notin {"started"} => PrintT(ToJson([i |-> i, state |-> state]))
=============================================================================
