-------------------------------- MODULE Cli ---------------------------------
(* The command line of pasm: which arguments mean what, and which command    *)
(* lines are wrong.  TLC runs every command line of at most MaxArgs of the   *)
(* given words.  What the program then makes of its input files is Asm's.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Input   == JsonDeserialize(IOEnv.CLI_INPUT)
Words   == {Input.words[j] : j \in 1..Len(Input.words)}
MaxArgs == Input.max
(* words that are files, and lists of directories (a directory ends in / )   *)
Files   == {Input.files[j] : j \in 1..Len(Input.files)}
Dirs(w) == IF w \in DOMAIN Input.dirs THEN Input.dirs[w] ELSE <<>>
(* words that are numbers; every other word counts as zero *)
Value(w) == IF w \in DOMAIN Input.values THEN Input.values[w] ELSE 0

OneArg == {"-o", "-s", "-l", "-log", "-dir"}
Flags  == {"-c64", "-v", "-i", "-nowarn"}
Cpus   == {"-6502", "-65c02"}
Help   == {"-?", "-h"}

VARIABLES args, i, opt, res
vars == <<args, i, opt, res>>

None == ""
Start(as) ==
  /\ args \in as
  /\ i = 1 /\ res = "run"
  /\ opt = [out |-> None, sym |-> None, lst |-> None, log |-> None, dir |-> None,
            set |-> {}, cpu |-> "6502", d |-> <<>>, inputs |-> <<>>]

Init == Start(UNION {[1..n -> Words] : n \in 0..MaxArgs})
(* or the given lines only *)
InitLines == Start({Input.lines[j] : j \in 1..Len(Input.lines)})

Field(w) == CASE w = "-o" -> "out" [] w = "-s" -> "sym" [] w = "-l" -> "lst"
              [] w = "-log" -> "log" [] w = "-dir" -> "dir"
More(n) == i + n <= Len(args)

Next ==
  /\ i <= Len(args) /\ res = "run" /\ args' = args
  /\ LET w == args[i] IN
     CASE w \in Help -> res' = "help" /\ UNCHANGED <<i, opt>>
       [] w \in OneArg ->
            IF ~More(1) \/ w \in opt.set THEN res' = "wrong" /\ UNCHANGED <<i, opt>>
            ELSE /\ opt' = [opt EXCEPT ![Field(w)] = args[i + 1], !.set = @ \cup {w}]
                 /\ i' = i + 2 /\ UNCHANGED res
       [] w \in Flags ->
            IF w \in opt.set THEN res' = "wrong" /\ UNCHANGED <<i, opt>>
            ELSE opt' = [opt EXCEPT !.set = @ \cup {w}] /\ i' = i + 1 /\ UNCHANGED res
       [] w \in Cpus ->
            IF "cpu" \in opt.set THEN res' = "wrong" /\ UNCHANGED <<i, opt>>
            ELSE /\ opt' = [opt EXCEPT !.set = @ \cup {"cpu"}, !.cpu = IF w = "-65c02" THEN "65c02" ELSE "6502"]
                 /\ i' = i + 1 /\ UNCHANGED res
       [] w = "-d" ->
            IF ~More(2) THEN res' = "wrong" /\ UNCHANGED <<i, opt>>
            ELSE /\ opt' = [opt EXCEPT !.d = Append(@, [n |-> args[i + 1], v |-> Value(args[i + 2])])]
                 /\ i' = i + 3 /\ UNCHANGED res
       [] OTHER -> opt' = [opt EXCEPT !.inputs = Append(@, w)] /\ i' = i + 1 /\ UNCHANGED res

Spec == Init /\ [][Next]_vars
SpecLines == InitLines /\ [][Next]_vars

Ended  == i > Len(args) \/ res # "run"
Result == IF res = "run" /\ opt.inputs = <<>> THEN "wrong" ELSE res

(* where an input file is found: here, or in the first directory that has it *)
RECURSIVE FoundIn(_, _, _)
FoundIn(f, ds, j) == IF j > Len(ds) THEN None
                     ELSE IF (ds[j] \o f) \in Files THEN ds[j] \o f ELSE FoundIn(f, ds, j + 1)
Found(f) == IF f \in Files THEN f ELSE FoundIn(f, Dirs(opt.dir), 1)
Opened == [j \in 1..Len(opt.inputs) |-> Found(opt.inputs[j])]

(* a file is written that is also read, or written twice: anything may happen *)
Written == {opt[f] : f \in {"out", "sym", "lst", "log"}} \ {None}
Clash == \/ \E j \in 1..Len(Opened) : Opened[j] \in Written
         \/ Written \cap Files # {}
         \/ Cardinality(Written) # Cardinality({f \in {"out", "sym", "lst", "log"} : opt[f] # None})

(* every word is taken exactly once, in order *)
Consumed == Ended /\ Result = "run" =>
  Len(args) = Len(opt.inputs) + 3 * Len(opt.d) + 2 * Cardinality(opt.set \cap OneArg)
              + Cardinality(opt.set \cap (Flags \cup {"cpu"}))
Report == Ended =>
  PrintT(ToJson([args |-> args, res |-> Result, out |-> opt.out, sym |-> opt.sym, lst |-> opt.lst,
                 log |-> opt.log, d |-> opt.d, inputs |-> opt.inputs, opened |-> Opened,
                 yinc |-> Found("y.inc"), cpu |-> opt.cpu, c64 |-> "-c64" \in opt.set, ill |-> "-i" \in opt.set,
                 verbose |-> "-v" \in opt.set, nowarn |-> "-nowarn" \in opt.set,
                 clash |-> Result = "run" /\ Clash]))
=============================================================================
