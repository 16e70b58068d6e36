------------------------------- MODULE Files --------------------------------
(* The files of one run of pasm and what may be wrong with them: an input    *)
(* that is missing, a directory or locked, an output whose directory is not  *)
(* there, that is a directory or locked, on a device that takes no bytes, or *)
(* longer than files may become.  A run succeeds exactly when it could read  *)
(* all of its inputs and has written all of its outputs to the last byte.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Input  == JsonDeserialize(IOEnv.FILES_INPUT)
Worlds == Input.worlds          \* the lengths of the outputs: [object, symbols, listing]
InWays == {Input.inways[j] : j \in 1..Len(Input.inways)}
OutWays == {Input.outways[j] : j \in 1..Len(Input.outways)}

Ins  == <<"main", "include", "load">>
Outs == <<"object", "listing", "symbols">>

VARIABLES w,      \* which program
          way,    \* what is wrong with each file
          limit,  \* the number of bytes that a file may have, -1 for any number
          at,     \* what is done next
          whole,  \* the outputs that were written in full
          res
vars == <<w, way, limit, at, whole, res>>

Asked == {f \in {"object", "listing", "symbols"} : way[f] # "none"}

Init ==
  /\ w \in 1..Len(Worlds)
  /\ \/ /\ limit = -1
        /\ way \in [main : InWays, include : InWays, load : InWays, object : OutWays \ {"none"},
                    listing : OutWays, symbols : OutWays]
     \/ /\ limit \in UNION {{0, Worlds[w][f] - 1, Worlds[w][f]} : f \in {"object", "listing", "symbols"}} \ {-1}
        /\ way \in [main : {"fine"}, include : {"fine"}, load : {"fine"}, object : {"fine"},
                    listing : {"none", "fine"}, symbols : {"none", "fine"}]
  /\ at = 1 /\ whole = {} /\ res = ""

(* a file that cannot be read ends the run *)
Read ==
  /\ res = "" /\ at <= Len(Ins)
  /\ at' = at + 1
  /\ res' = IF way[Ins[at]] = "fine" THEN "" ELSE "rejected"
  /\ UNCHANGED <<w, way, limit, whole>>

Fits(f) == limit = -1 \/ Worlds[w][f] <= limit
Write ==
  /\ res = "" /\ at > Len(Ins) /\ at <= Len(Ins) + Len(Outs)
  /\ LET f == Outs[at - Len(Ins)] IN
     whole' = IF way[f] = "fine" /\ Fits(f) THEN whole \cup {f} ELSE whole
  /\ at' = at + 1
  /\ UNCHANGED <<w, way, limit, res>>

End ==
  /\ res = "" /\ at > Len(Ins) + Len(Outs)
  /\ res' = IF whole = Asked THEN "accepted" ELSE "rejected"
  /\ UNCHANGED <<w, way, limit, at, whole>>

Next == Read \/ Write \/ End
Spec == Init /\ [][Next]_vars

AllOrNothing == res = "accepted" => \A f \in Asked : f \in whole
NothingUnread == whole # {} => \A j \in 1..Len(Ins) : way[Ins[j]] = "fine"
Report == res # "" => PrintT(ToJson([w |-> w, way |-> way, limit |-> limit, res |-> res]))
=============================================================================
