------------------------------ MODULE EolTree -------------------------------
(* Which files eolconvert converts: the texts in the directory of the        *)
(* samples and in all directories below it, whatever else the directories    *)
(* hold.  A tree is a sequence of directories; the first is the root, every  *)
(* other one has an earlier one above it.  TLC walks every tree of at most   *)
(* MaxDirs directories with every choice of content of each directory.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDirs

Contents == {{}, {"text"}, {"raw"}, {"text", "raw"}, {"empty"}}

VARIABLES above, holds, todo, seen, converted
vars == <<above, holds, todo, seen, converted>>

Dirs == 1..Len(holds)
Below(d) == {k \in Dirs : k > 1 /\ above[k] = d}

Init == /\ \E n \in 1..MaxDirs :
             /\ above \in {f \in [1..n -> 0..n] : f[1] = 0 /\ \A k \in 2..n : f[k] \in 1..(k - 1)}
             /\ holds \in [1..n -> Contents]
        /\ todo = {1} /\ seen = {} /\ converted = {}

(* one directory: its files, and its directories are to be walked *)
Walk(d) == /\ d \in todo
           /\ todo' = (todo \ {d}) \cup Below(d)
           /\ seen' = seen \cup {d}
           /\ converted' = converted \cup (IF "text" \in holds[d] THEN {d} ELSE {})
           /\ UNCHANGED <<above, holds>>

Next == todo # {} /\ Walk(CHOOSE d \in todo : \A k \in todo : d <= k)
Spec == Init /\ [][Next]_vars

Once == seen \cap todo = {}
All == todo = {} => seen = Dirs /\ converted = {d \in Dirs : "text" \in holds[d]}
Report == todo = {} => PrintT(ToJson([above |-> above, holds |-> holds, converted |-> converted]))
=============================================================================
