-------------------------------- MODULE Cpu ---------------------------------
(* A processor that runs the object files pasm writes.  It is the other half *)
(* of what register loops and branches promise: Asm says which bytes appear, *)
(* Cpu says that these bytes do what the source says.  A case of the input   *)
(* is an object file, the flags to start with, and what the source means:    *)
(*   for   counts a register from a to b (up or down) around its body        *)
(*   mark  stores a register; the stores are all that is observed            *)
(*   jump  a branch: mark t when its condition holds, else mark e            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bits, Isa

Cases == JsonDeserialize(IOEnv.CPU_INPUT)
MaxSteps == 30000

(* opcode -> <<mnemonic, mode>> *)
Decode == TLCEval([b \in {Cmos[p[1]][p[2]] : p \in Pairs(Cmos)} |->
             CHOOSE p \in Pairs(Cmos) : Cmos[p[1]][p[2]] = b])

VARIABLES case,     \* which object file
          ip, a, x, y, fl,   \* the registers; fl = flags [n, v, z, c]
          log,      \* how many stores there were, all of them as the source means
          got,      \* the last one: <<address, value>>
          steps, st \* "run", "halt", "bad" (no such instruction), "wrong" (not what the source means)

vars == <<case, ip, a, x, y, fl, log, got, steps, st>>

Mem(adr) == LET i == adr - Cases[case].org + 1 IN
            IF i \in 1..Len(Cases[case].bytes) THEN Cases[case].bytes[i] ELSE 0
Signed(b) == IF b > 127 THEN b - 256 ELSE b

Init ==
  /\ case \in 1..Len(Cases)
  /\ ip = Cases[case].org /\ a = 0 /\ x = 0 /\ y = 0
  /\ fl = Cases[case].flags
  /\ log = 0 /\ got = <<>> /\ steps = 0 /\ st = "run"

NZ(f, v) == [f EXCEPT !.n = v > 127, !.z = v = 0]
Compare(f, r, v) == [NZ(f, (r - v) % 256) EXCEPT !.c = r >= v]

Taken(m, f) ==
  CASE m = "bcc" -> ~f.c [] m = "bcs" -> f.c [] m = "bne" -> ~f.z [] m = "beq" -> f.z
    [] m = "bpl" -> ~f.n [] m = "bmi" -> f.n [] m = "bvc" -> ~f.v [] m = "bvs" -> f.v
    [] m = "bra" -> TRUE
Branches == {"bcc", "bcs", "bne", "beq", "bpl", "bmi", "bvc", "bvs", "bra"}

(* What the source means: the stores, r being the values of the registers and *)
(* f the flags.                                                              *)
RECURSIVE Means(_, _, _), MeansAll(_, _, _, _), Rounds(_, _, _, _)
Count(s, i) == IF s.up THEN s.a + i - 1 ELSE s.a - i + 1
NumRounds(s) == IF s.up THEN s.b - s.a + 1 ELSE s.a - s.b + 1
Rounds(s, i, r, f) ==
  IF i > NumRounds(s) THEN <<>>
  ELSE MeansAll(s.body, 1, [r EXCEPT ![s.r] = Count(s, i)], f) \o Rounds(s, i + 1, r, f)
MeansAll(ss, i, r, f) == IF i > Len(ss) THEN <<>> ELSE Means(ss[i], r, f) \o MeansAll(ss, i + 1, r, f)
Means(s, r, f) ==
  CASE s.o = "for"  -> Rounds(s, 1, r, f)
    [] s.o = "mark" -> << <<s.at, r[s.r]>> >>
    [] s.o = "jump" -> IF Taken(s.m, f) THEN << <<s.t, 0>> >> ELSE << <<s.e, 0>> >>

Meaning == TLCEval([k \in 1..Len(Cases) |-> MeansAll(Cases[k].means, 1, [x |-> 0, y |-> 0], Cases[k].flags)])

Step ==
  /\ st = "run" /\ steps < MaxSteps
  /\ LET op == Mem(ip)
         d  == IF op \in DOMAIN Decode THEN Decode[op] ELSE <<"?", "imp">>
         m  == d[1]
         n  == OperandBytes(d[2])
         v  == IF n = 1 THEN Mem(ip + 1) ELSE IF n = 2 THEN Mem(ip + 1) + 256 * Mem(ip + 2) ELSE 0
         nx == ip + 1 + n
         ok == /\ ip >= Cases[case].org
               /\ ip + n < Cases[case].org + Len(Cases[case].bytes)
     IN /\ case' = case /\ steps' = steps + 1
        /\ IF ~ok THEN st' = "bad" /\ UNCHANGED <<ip, a, x, y, fl, log, got>>
           ELSE IF m = "brk" THEN st' = "halt" /\ UNCHANGED <<ip, a, x, y, fl, log, got>>
           ELSE /\ ip' = IF m \in Branches THEN (IF Taken(m, fl) THEN nx + Signed(v) ELSE nx)
                         ELSE IF m = "jmp" /\ d[2] = "abs" THEN v ELSE nx
                /\ a' = IF m = "lda" /\ d[2] = "imm" THEN v ELSE a
                /\ x' = CASE m = "ldx" /\ d[2] = "imm" -> v [] m = "inx" -> (x + 1) % 256
                          [] m = "dex" -> (x - 1) % 256 [] OTHER -> x
                /\ y' = CASE m = "ldy" /\ d[2] = "imm" -> v [] m = "iny" -> (y + 1) % 256
                          [] m = "dey" -> (y - 1) % 256 [] OTHER -> y
                /\ fl' = CASE m = "lda" -> NZ(fl, a') [] m \in {"ldx", "inx", "dex"} -> NZ(fl, x')
                           [] m \in {"ldy", "iny", "dey"} -> NZ(fl, y')
                           [] m = "cpx" /\ d[2] = "imm" -> Compare(fl, x, v)
                           [] m = "cpy" /\ d[2] = "imm" -> Compare(fl, y, v)
                           [] m = "cmp" /\ d[2] = "imm" -> Compare(fl, a, v)
                           [] m = "clc" -> [fl EXCEPT !.c = FALSE] [] m = "sec" -> [fl EXCEPT !.c = TRUE]
                           [] OTHER -> fl
                /\ got' = CASE m = "sta" /\ d[2] \in {"zp", "abs"} -> <<v, a>>
                            [] m = "stx" /\ d[2] \in {"zp", "abs"} -> <<v, x>>
                            [] m = "sty" /\ d[2] \in {"zp", "abs"} -> <<v, y>>
                            [] OTHER -> got
                /\ log' = IF m \in {"sta", "stx", "sty"} THEN log + 1 ELSE log
                /\ st' = IF m \in Branches \cup {"jmp", "nop", "clc", "sec", "inx", "iny", "dex", "dey"} THEN "run"
                         ELSE IF m \in {"lda", "ldx", "ldy", "cpx", "cpy", "cmp"} /\ d[2] = "imm" THEN "run"
                         ELSE IF m \in {"sta", "stx", "sty"} /\ d[2] \in {"zp", "abs"}
                              THEN IF log' <= Len(Meaning[case]) /\ Meaning[case][log'] = got' THEN "run" ELSE "wrong"
                         ELSE "bad"

Spec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
(* every case comes to an end, and did what it means *)
Done == st # "run" \/ steps >= MaxSteps
Report == Done => PrintT(ToJson([case |-> case, ok |-> st = "halt" /\ log = Len(Meaning[case]),
                                 st |-> st, steps |-> steps, log |-> log, got |-> got, all |-> Len(Meaning[case]),
                                 means |-> IF log \in 1..Len(Meaning[case]) THEN Meaning[case][log] ELSE <<>>]))
Registers == /\ a \in 0..255 /\ x \in 0..255 /\ y \in 0..255
             /\ st \in {"run", "halt", "bad", "wrong"}
=============================================================================
