------------------------------- MODULE Batch --------------------------------
(* Runs the programs of a JSON file through Asm and prints what each of them *)
(* does, one line of JSON per program.                                       *)
EXTENDS Asm, Json, IOUtils

Input == JsonDeserialize(IOEnv.ASM_INPUT)
BatchPrograms == Input.programs
BatchAlphabets == Input.alphabets

Kind(k) == IF syms[k].mac # 0 THEN "mac" ELSE IF syms[k].var THEN "var"
           ELSE IF syms[k].loc THEN "loc" ELSE "sym"
SymReport == {[n |-> k, v |-> syms[k].v, r |-> syms[k].r, d |-> syms[k].d, i |-> syms[k].i,
               k |-> Kind(k)] : k \in DOMAIN syms}

(* the statement that a behaviour ended at *)
Where ==
  IF stack = <<>> THEN "end"
  ELSE IF TopF.k \in {"blk", "loop"} /\ TopF.i <= BlockLen(TopF.b)
  THEN Stmt(TopF.b, TopF.i).o \o " " \o ToString(Pos) ELSE TopF.k

(* where each block that is being run is at *)
Path == LET bs == SelectSeq(stack, LAMBDA f : f.k \in {"blk", "loop"})
        IN [j \in 1..Len(bs) |-> <<bs[j].b, bs[j].i>>]

Report ==
  ph = "done" =>
    PrintT(ToJson([p |-> prog, c |-> choice, res |-> res, pass |-> pass, final |-> final,
                   hdr |-> hdr, rows |-> rows, log |-> log, at |-> Where, path |-> Path, warned |-> warned,
                   syms |-> IF res = "ok" THEN SymReport ELSE {}]))
=============================================================================
