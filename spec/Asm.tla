-------------------------------- MODULE Asm ---------------------------------
(* pasm as a state machine.                                                  *)
(*                                                                           *)
(* A behaviour assembles one program.  The program is a tree of statements   *)
(* (blocks of statements, the first block is the main program).  One step    *)
(* executes one statement of one pass: passes over the whole program are     *)
(* repeated until a pass leaves every symbol as it found it, and then a      *)
(* final pass writes the object file.  Any error ends the behaviour.         *)
(*                                                                           *)
(* The programs come from the outside: either whole programs, or an alphabet *)
(* of statements of which TLC takes every sequence up to a given length.     *)
EXTENDS Isa, Bits, Naturals, Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

CONSTANTS Programs,    \* sequence of records [blocks, mains, opts]
          Alphabets,   \* sequence of records [alpha, k, pre, post, min, max, blocks, opts]
          MaxPass,     \* after this many passes that are not clean pasm gives up
          MaxLoop      \* programs with longer loops are outside of the domain

VARIABLES
  prog,     \* number of the program (or of the alphabet) and the
  choice,   \* letters chosen from the alphabet (<<>>: a whole program)
  ph,       \* "pass" or "done"
  res,      \* "" while running, then "ok", "error" or "undefined"
  pass,     \* number of the pass, from 1
  final,    \* the final pass writes the output
  stack,    \* control: a stack of frames, the innermost last
  pc,       \* program counter
  seg,      \* origin of the current segment and the bytes written to it
  syms,     \* symbol table: full name -> [v, i, ...]
  anon,     \* anonymous labels: <<file, line>> -> [c, v]
  secs,     \* full names of the open sections, the innermost last
  lastlab,  \* the label that local labels belong to
  prm,      \* values of the macro parameters
  mcount,   \* number of completed calls of every macro
  regs,     \* index registers that are in use by a register loop
  mach,     \* cpu, illegal instructions, warnings, format, listing
  changed,  \* symbols that changed in this pass
  orgd,     \* .org was seen in this pass
  rows,     \* what was written: [pc, b, k, m]
  hdr,      \* load address in front of the object file, or -1
  log,      \* output of .print and .printall
  warned    \* warnings of the final pass

vars == <<prog, choice, ph, res, pass, final, stack, pc, seg, syms, anon, secs, lastlab,
          prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

DefaultOrigin == 4096
Top == 65535

Enum == choice # <<>>
Blocks == IF Enum THEN Alphabets[prog].blocks ELSE Programs[prog].blocks
Opts   == IF Enum THEN Alphabets[prog].opts   ELSE Programs[prog].opts

(* letters 1..k are chosen from, the letters of pre and post are always there *)
Letters == Alphabets[prog].pre \o choice \o Alphabets[prog].post
BlockLen(b) == IF Enum /\ b = 1 THEN Len(Letters) ELSE Len(Blocks[b])
Stmt(b, i)  == IF Enum /\ b = 1 THEN Alphabets[prog].alpha[Letters[i]] ELSE Blocks[b][i]
LineOf(b, i) == IF Enum /\ b = 1 THEN i ELSE Stmt(b, i).l

Scope == IF secs = <<>> THEN "" ELSE secs[Len(secs)]

-----------------------------------------------------------------------------
(* Symbols                                                                   *)
(* v value  i has a value  var variable  q named with its section            *)
(* loc local  s section  n name in the section  mac body of a macro or 0     *)
(* lx names its .ifdefs found  r referenced  d defined on the command line   *)

NewSym == [v |-> 0, i |-> FALSE, var |-> FALSE, q |-> FALSE, loc |-> FALSE, s |-> "",
           n |-> "", mac |-> 0, lx |-> {}, r |-> FALSE, d |-> FALSE]

Join(s, n) == IF s = "" THEN n ELSE s \o "." \o n

(* an unqualified name inside a section that only a global symbol bears *)
GlobalOnly(S, k) ==
  /\ ~S[k].i /\ ~S[k].var /\ ~S[k].q /\ ~S[k].loc /\ S[k].s # ""
  /\ S[k].n \in DOMAIN S /\ S[S[k].n].i

(* the table entry a plain name stands for *)
Key(S, n) ==
  IF Scope = "" THEN n
  ELSE LET k == Join(Scope, n) IN
       IF k \in DOMAIN S /\ ~GlobalOnly(S, k) THEN k
       ELSE IF n \in DOMAIN S THEN n ELSE k

LocalName(n) == IF lastlab = "" THEN n ELSE lastlab \o "__" \o n

(* name token -> table key *)
TokKey(S, t) ==
  CASE t.t = "id"  -> Key(S, t.n)
    [] t.t = "loc" -> Key(S, LocalName(t.n))
    [] t.t = "qid" -> t.n

(* the entry is made at the first reference *)
TouchOne(S, t) ==
  LET k == TokKey(S, t) IN
  IF k \in DOMAIN S
  THEN [S EXCEPT ![k].r = TRUE, ![k].q = @ \/ t.t = "qid"]
  ELSE (k :> [NewSym EXCEPT !.r = TRUE, !.q = (t.t = "qid"), !.loc = (t.t = "loc"),
                            !.s = IF t.t = "qid" THEN t.s ELSE Scope,
                            !.n = IF t.t = "qid" THEN t.b
                                  ELSE IF t.t = "loc" THEN LocalName(t.n) ELSE t.n]) @@ S
RECURSIVE Touch(_, _)
Touch(S, toks) == IF toks = <<>> THEN S ELSE Touch(TouchOne(S, Head(toks)), Tail(toks))

(* Definition of name n with value v: [syms, ch, e].  A definition inside of *)
(* a section never changes a symbol from outside.                            *)
Define(S, tok, v) ==
  LET k  == TokKey(S, tok)
      S1 == IF k \in DOMAIN S THEN S
            ELSE (k :> [NewSym EXCEPT !.loc = (tok.t = "loc"), !.q = (tok.t = "qid"),
                          !.s = IF tok.t = "qid" THEN tok.s ELSE Scope,
                          !.n = IF tok.t = "qid" THEN tok.b
                                ELSE IF tok.t = "loc" THEN LocalName(tok.n) ELSE tok.n]) @@ S
      old == S1[k]
  IN IF old.i /\ old.v = v /\ v >= 0 /\ v <= Top THEN [syms |-> S1, ch |-> 0, e |-> FALSE]
     ELSE LET own == old.s = "" /\ Scope # ""
              k2  == IF own THEN Join(Scope, k) ELSE k
              S2  == IF k2 \in DOMAIN S1 THEN [S1 EXCEPT ![k2].q = @ \/ own]
                     ELSE (k2 :> [NewSym EXCEPT !.s = Scope, !.n = k, !.q = TRUE,
                                                !.loc = old.loc]) @@ S1
              bad == final /\ ~S2[k2].var /\ (v < 0 \/ v > Top)
              nv  == IF bad THEN S2[k2].v ELSE v
          IN [syms |-> [S2 EXCEPT ![k2].v = nv, ![k2].i = TRUE],
              ch   |-> IF S2[k2].v # nv /\ ~S2[k2].var THEN 1 ELSE 0,
              e    |-> bad]

Unresolved ==
  {k \in DOMAIN syms : ~syms[k].i /\ syms[k].mac = 0 /\ ~syms[k].var /\ ~GlobalOnly(syms, k)}

(* anonymous labels: n-th label backwards from the line, n-th label forwards *)
AnonSeq(c, f) == {x[2] : x \in {y \in DOMAIN anon : y[1] = f /\ anon[y].c = c}}
Largest(L)  == FoldSet(LAMBDA x, y : IF x > y THEN x ELSE y, -1, L)
Smallest(L) == FoldSet(LAMBDA x, y : IF y < 0 \/ x < y THEN x ELSE y, -1, L)
RECURSIVE NthMax(_, _)
NthMax(L, n) == IF L = {} \/ n = 1 THEN Largest(L) ELSE NthMax(L \ {Largest(L)}, n - 1)
RECURSIVE NthMin(_, _)
NthMin(L, n) == IF L = {} \/ n = 1 THEN Smallest(L) ELSE NthMin(L \ {Smallest(L)}, n - 1)
(* <<file, line>> of the statement of the program that is being executed *)
FileFrame ==
  LET P == {j \in 1..Len(stack) : stack[j].k = "blk" /\ stack[j].f > 0} IN
  CHOOSE x \in P : \A y \in P : y <= x
LineAt(j) == LineOf(stack[j].b, IF j = Len(stack) THEN stack[j].i ELSE stack[j].i - 1)
Pos == <<stack[FileFrame].f, LineAt(FileFrame)>>
(* which statement that is: <<file, block, number>>; the branches of an       *)
(* .ifdef of the program count as parts of the program                       *)
Place ==
  LET P == {j \in FileFrame..Len(stack) : stack[j].k = "blk" /\ LineAt(j) > 0}
      j == CHOOSE x \in P : \A y \in P : y <= x
  IN <<stack[FileFrame].f, stack[j].b, IF j = Len(stack) THEN stack[j].i ELSE stack[j].i - 1>>

AnonLine(c, n, at) ==
  LET L == AnonSeq(c, at[1]) IN
  IF c = "-" THEN NthMax({x \in L : x <= at[2]}, n) ELSE NthMin({x \in L : x > at[2]}, n)

-----------------------------------------------------------------------------
(* Expressions: a sequence of tokens, read by precedence.                    *)
(* [v value, i next token, k every symbol has a value, e error,              *)
(*  u outside of the domain, t symbols referenced, in order]                 *)

Val(v, i) == [v |-> v, i |-> i, k |-> TRUE, e |-> FALSE, u |-> ~InLim(v), t |-> <<>>]

Prec(o) ==
  CASE o \in {"<<", ">>"} -> 1
    [] o \in {"||", "&&", ">=", "<=", "==", "!=", ">", "<"} -> 2
    [] o \in {"|", "&", "^"} -> 3
    [] o \in {"+", "-"} -> 4
    [] o \in {"*", "/"} -> 5

Truth(b) == IF b THEN 1 ELSE 0

Fits(v) == IF InLim(v) THEN [v |-> v, e |-> FALSE, u |-> FALSE]
           ELSE [v |-> 0, e |-> FALSE, u |-> TRUE]
Undef == [v |-> 0, e |-> FALSE, u |-> TRUE]

Apply(o, a, b) ==
  CASE o = "+"  -> Fits(a + b)
    [] o = "-"  -> Fits(a - b)
    [] o = "*"  -> IF MulOver(a, b) THEN Undef ELSE Fits(a * b)
    [] o = "/"  -> IF b = 0 THEN [v |-> 0, e |-> final, u |-> FALSE] ELSE Fits(TDiv(a, b))
    [] o = "|"  -> Fits(BOr(a, b))
    [] o = "&"  -> Fits(BAnd(a, b))
    [] o = "^"  -> Fits(BXor(a, b))
    [] o = "==" -> Fits(Truth(a = b))
    [] o = "!=" -> Fits(Truth(a # b))
    [] o = "<"  -> Fits(Truth(a < b))
    [] o = ">"  -> Fits(Truth(a > b))
    [] o = "<=" -> Fits(Truth(a <= b))
    [] o = ">=" -> Fits(Truth(a >= b))
    [] o = "<<" -> IF b < 0 \/ b > 24 \/ a < 0 THEN Undef
                   ELSE IF MulOver(a, Pow2[b]) THEN Undef ELSE Fits(a * Pow2[b])
    [] o = ">>" -> IF b < 0 \/ b > 24 THEN Undef ELSE Fits(a \div Pow2[b])

Unary(o, a) ==
  CASE o = "<" -> a % 256
    [] o = ">" -> (a \div 256) % 256
    [] o = "~" -> IF a < 0 \/ a > 255 THEN BAnd(Cpl(a), 65535) ELSE 255 - a
    [] o = "!" -> Truth(a = 0)

Comb(o, l, r) ==
  IF o = "&&" /\ l.v = 0 THEN [l EXCEPT !.v = 0, !.i = r.i]
  ELSE IF o = "||" /\ l.v # 0 THEN [l EXCEPT !.v = 1, !.i = r.i]
  ELSE LET x == IF o \in {"&&", "||"} THEN Fits(Truth(r.v # 0)) ELSE Apply(o, l.v, r.v)
       IN [v |-> x.v, i |-> r.i, k |-> l.k /\ r.k, e |-> l.e \/ r.e \/ x.e,
           u |-> l.u \/ r.u \/ x.u, t |-> l.t \o r.t]

SymVal(t, i) ==
  LET k == TokKey(syms, t) IN
  IF k \in DOMAIN syms /\ syms[k].i THEN [Val(syms[k].v, i + 1) EXCEPT !.t = <<t>>]
  ELSE [Val(0, i + 1) EXCEPT !.k = FALSE, !.t = <<t>>]

AnonVal(c, n, i) ==
  LET at == Pos
      l  == AnonLine(c, n, at) IN
  IF l >= 0 THEN Val(anon[<<at[1], l>>].v, i + 1)
  ELSE [Val(0, i + 1) EXCEPT !.k = FALSE, !.e = final]

RECURSIVE Prim(_, _, _), PExpr(_, _, _, _), PLoop(_, _, _, _)
Prim(T, i, p) ==
  LET t == T[i] IN
  CASE t.t = "n"  -> Val(t.v, i + 1)
    [] t.t = "pc" -> Val(p, i + 1)
    [] t.t \in {"id", "qid", "loc"} -> SymVal(t, i)
    [] t.t = "mp" -> IF t.v \in DOMAIN prm THEN Val(prm[t.v], i + 1)
                     ELSE [Val(0, i + 1) EXCEPT !.u = TRUE]
    [] t.t = "an" -> AnonVal(t.n, t.v, i)
    [] t.t = "("  -> LET r == PExpr(T, i + 1, 1, p) IN [r EXCEPT !.i = @ + 1]
    [] t.t = "neg" -> LET r == Prim(T, i + 1, p) IN [r EXCEPT !.v = -@]
    [] t.t = "u"  -> LET r == PExpr(T, i + 1, 1, p) IN [r EXCEPT !.v = Unary(t.n, @)]
PLoop(T, l, m, p) ==
  IF l.i <= Len(T) /\ T[l.i].t = "b" /\ Prec(T[l.i].n) >= m
  THEN PLoop(T, Comb(T[l.i].n, l, PExpr(T, l.i + 1, Prec(T[l.i].n) + 1, p)), m, p)
  ELSE l
PExpr(T, i, m, p) == PLoop(T, Prim(T, i, p), m, p)

EvalAt(T, p) == IF Len(T) = 1 /\ T[1].t = "n" THEN Val(T[1].v, 2) ELSE PExpr(T, 1, 1, p)
Eval(T) == EvalAt(T, pc)

-----------------------------------------------------------------------------
(* Output.  o = [pc, seg, rows, hdr, e]                                      *)

Out == [pc |-> pc, seg |-> seg, rows |-> rows, hdr |-> hdr, e |-> FALSE]

(* k: "ins" ("neg": with a negative operand), "db", "str", "fill"  m: mnemonic, *)
(* f: addressing mode                                                          *)
(* at: the statement of the program it belongs to                              *)
EmitAs(o, bytes, k, m, f) ==
  IF ~final THEN [o EXCEPT !.pc = @ + Len(bytes)]
  ELSE LET s == IF o.seg.spec THEN o.seg ELSE [spec |-> TRUE, o |-> o.pc, w |-> 0]
           h == IF o.hdr < 0 /\ mach.c64 THEN s.o ELSE o.hdr
       IN [pc   |-> o.pc + Len(bytes),
           seg  |-> [s EXCEPT !.w = @ + Len(bytes)],
           hdr  |-> h,
           rows |-> Append(o.rows, [pc |-> o.pc, b |-> bytes, k |-> k, m |-> m, f |-> f, s |-> s.o,
                                    l |-> mach.list, at |-> Place]),
           e    |-> o.e \/ o.pc > s.o + s.w]
Emit(o, bytes, k, m) == EmitAs(o, bytes, k, m, "")

Zeros(n) == [i \in 1..n |-> 0]

(* an element of .byte (1), .word (2) and .str (0) *)
DataOk(v, size) == IF size = 1 THEN v >= -254 /\ v <= 255 ELSE v >= -65534 /\ v <= 65535
DataBytes(v, size) ==
  IF size = 1 THEN <<Byte(v)>>
  ELSE IF size = 2 THEN Word(v)
  ELSE IF v >= 0 /\ v <= 255 THEN <<Byte(v)>> ELSE Word(v)

RECURSIVE Data(_, _, _, _)
(* a = [o, k, u, e, t] *)
Data(xs, i, size, a) ==
  IF i > Len(xs) THEN a
  ELSE IF "s" \in DOMAIN xs[i]
  THEN LET raw == xs[i].s
           b == IF size = 2 /\ Len(raw) % 2 = 1 THEN Append(raw, 0) ELSE raw
       IN Data(xs, i + 1, size, [a EXCEPT !.o = Emit(@, b, "str", "")])
  ELSE LET r == EvalAt(xs[i].e, a.o.pc) IN
       Data(xs, i + 1, size,
            [a EXCEPT !.o = Emit(@, DataBytes(r.v, size), "db", ""),
                      !.u = @ \/ r.u, !.t = @ \o r.t,
                      !.e = @ \/ r.e \/ (final /\ ~DataOk(r.v, size))])

(* Operand of an instruction: the shortest form that holds the value *)
OperandOk(mode, v) ==
  CASE mode = "zpi" -> v >= 0 /\ v <= 255
    [] mode # "zpi" /\ mode \in OneByteModes -> v >= -254 /\ v <= 255
    [] mode \in TwoByteModes -> v >= -65534 /\ v <= 65535
    [] OTHER -> TRUE

HasMode(m, mode) == mode # "" /\ m \in DOMAIN InstrSet(mach.cpu, mach.ill)
                    /\ mode \in DOMAIN InstrSet(mach.cpu, mach.ill)[m]
OpCode(m, mode) == InstrSet(mach.cpu, mach.ill)[m][mode]

(* is the instruction one of the instruction set at all *)
InsOk(m, syn) ==
  LET sm == SyntaxModes(syn) IN
  \/ HasMode(m, sm[1]) \/ HasMode(m, sm[2])
  \/ HasMode(m, "rel") /\ syn \in {"dir", "ind"}

ModeFor(m, syn, known, v) ==
  LET sm == SyntaxModes(syn) IN
  IF HasMode(m, sm[1]) /\ HasMode(m, sm[2])
  THEN IF known /\ v >= 0 /\ v <= 255 THEN sm[1] ELSE sm[2]
  ELSE IF HasMode(m, sm[1]) THEN sm[1] ELSE sm[2]

OperandOf(mode, v) ==
  IF mode \in OneByteModes THEN <<Byte(v)>>
  ELSE IF mode \in TwoByteModes THEN Word(v) ELSE <<>>

(* [o, e, w] *)
Plain(o, m, mode, v) ==
  [o |-> EmitAs(o, <<OpCode(m, mode)>> \o OperandOf(mode, v), IF v < 0 THEN "neg" ELSE "ins", m, mode),
   e |-> final /\ ~OperandOk(mode, v), w |-> 0]

Reaches(p, v) == v - (p + 2) >= -128 /\ v - (p + 2) <= 127

Branch(o, m, known, v) ==
  IF ~known \/ Reaches(o.pc, v)
  THEN [o |-> EmitAs(o, <<OpCode(m, "rel"), Byte(v - (o.pc + 2))>>, "ins", m, "rel"),
        e |-> final /\ ~Reaches(o.pc, v), w |-> 0]
  ELSE LET inv == IF m = "bra" THEN o
                  ELSE EmitAs(o, <<OpCode(Inverse[m], "rel"), 3>>, "ins", Inverse[m], "rel")
           j   == EmitAs(inv, <<OpCode("jmp", "abs")>> \o Word(v), "ins", "jmp", "abs")
       IN [o |-> j, e |-> final /\ ~OperandOk("abs", v),
           w |-> IF final /\ ~mach.nowarn THEN 1 ELSE 0]

(* an indirect operand without a value yet is taken for a long one *)
Ins(o, m, syn, known, v) ==
  IF HasMode(m, "rel") THEN Branch(o, m, known, v)
  ELSE IF ~known /\ ~final /\ syn = "ind" /\ ModeFor(m, syn, known, v) = "zpi"
  THEN [o |-> Emit(o, <<0, 0, 0>>, "ins", m), e |-> FALSE, w |-> 0]
  ELSE Plain(o, m, ModeFor(m, syn, known, v), v)

-----------------------------------------------------------------------------
(* Control                                                                   *)
(* blk  statement i of block b is next; f: the file, 0 for a block inside of *)
(*      a statement; lx: names that its .ifdefs find defined                 *)
(* loop the loop that is statement i of block b, after n rounds; x its data  *)
(* mac  return from a macro                                                  *)

FileBlk(b) == [k |-> "blk", b |-> b, i |-> 1, f |-> b, lx |-> {}]
Blk(b, lx) == [k |-> "blk", b |-> b, i |-> 1, f |-> 0, lx |-> lx]
LoopFrame(f, lx, x) == [k |-> "loop", b |-> f.b, i |-> f.i, lx |-> lx, n |-> 0, x |-> x]
TopF == stack[Len(stack)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Advance(st) == [st EXCEPT ![Len(st)].i = @ + 1]
Push(st, f) == Append(st, f)

Finish(r) ==
  /\ ph' = "done" /\ res' = r
  /\ UNCHANGED <<prog, choice, pass, final, stack, pc, seg, syms, anon, secs, lastlab, prm, mcount,
                 regs, mach, changed, orgd, rows, hdr, log, warned>>
Error == Finish("error")
Outside == Finish("undefined")

(* everything that most statements leave alone *)
Still == UNCHANGED <<prog, choice, ph, res, pass, final>>

SetOut(o) == pc' = o.pc /\ seg' = o.seg /\ rows' = o.rows /\ hdr' = o.hdr

NextStmt == stack' = Advance(stack)

-----------------------------------------------------------------------------
(* Statements                                                                *)

(* every instruction in the statement, also where it is never expanded, is   *)
(* one of the instruction set in force where it stands                       *)
RECURSIVE Legal(_, _)
Legal(s, lx) ==
  CASE s.o = "ins" -> InsOk(s.m, s.k)
    [] s.o \in {"if", "while", "repeat", "do", "for", "reg", "macdef"} ->
         \A n \in 1..Len(s.bs) : \A j \in 1..Len(Blocks[s.bs[n]]) : Legal(Blocks[s.bs[n]][j], lx)
    [] s.o = "ifdef" ->
         LET b == IF (s.n \in lx) # s.neg THEN s.t ELSE s.f IN
         b = 0 \/ \A j \in 1..Len(Blocks[b]) : Legal(Blocks[b][j], lx)
    [] OTHER -> TRUE

Defined(S, n) == Key(S, n) \in DOMAIN S

(* the macros a statement calls are defined in front of it: 0 they are, 2 no *)
(* (a syntax error), 1 no, and it would be a label with something behind it  *)
RECURSIVE Calls(_, _)
Worst(X) == IF 2 \in X THEN 2 ELSE IF 1 \in X THEN 1 ELSE 0
CallsIn(b, lx) == Worst({Calls(Blocks[b][j], lx) : j \in 1..Len(Blocks[b])})
Calls(s, lx) ==
  CASE s.o = "call" -> IF Defined(syms, s.n) /\ syms[Key(syms, s.n)].mac # 0 THEN 0
                       ELSE IF Len(s.as) > 0 /\ s.as[1][1].t \in {"n", "mp"} THEN 2 ELSE 1
    [] s.o \in {"if", "while", "repeat", "do", "for", "reg"} ->
         Worst({CallsIn(s.bs[n], lx) : n \in 1..Len(s.bs)})
    [] s.o = "macdef" -> CallsIn(s.bs[1], lx)
    [] s.o = "ifdef" -> LET b == IF (s.n \in lx) # s.neg THEN s.t ELSE s.f IN
                        IF b = 0 THEN 0 ELSE CallsIn(b, lx)
    [] OTHER -> 0

(* names the .ifdefs of a statement find defined: as the table is when the   *)
(* statement of the program is read                                          *)
LexDef(s, f) ==
  IF f.f > 0 THEN {s.nd[j] : j \in {x \in 1..Len(s.nd) : Defined(syms, s.nd[x])}} ELSE f.lx

DoLabel(s, f) ==
  LET d == Define(syms, s.n, pc) IN
  IF d.e THEN Error
  ELSE /\ syms' = d.syms /\ changed' = changed + d.ch
       /\ lastlab' = IF s.n.t # "loc" /\ f.f > 0 THEN s.n.n ELSE lastlab
       /\ NextStmt /\ Still
       /\ UNCHANGED <<pc, seg, anon, secs, prm, mcount, regs, mach, orgd, rows, hdr, log, warned>>

DoAnon(s) ==
  LET here == Pos IN
  /\ anon' = IF here \notin DOMAIN anon THEN (here :> [c |-> s.c, v |-> pc]) @@ anon
             ELSE IF anon[here].v = pc THEN anon ELSE [anon EXCEPT ![here].v = pc]
  /\ changed' = changed + (IF here \in DOMAIN anon /\ anon[here].v # pc THEN 1 ELSE 0)
  /\ NextStmt /\ Still
  /\ UNCHANGED <<pc, seg, syms, secs, lastlab, prm, mcount, regs, mach, orgd, rows, hdr, log, warned>>

DoAssign(s) ==
  LET r == Eval(s.e)
      S == Touch(syms, r.t)
      d == Define(S, s.n, r.v)
  IN IF r.u THEN Outside ELSE IF r.e \/ d.e THEN Error
     ELSE /\ syms' = d.syms /\ changed' = changed + d.ch
          /\ NextStmt /\ Still
          /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, orgd, rows, hdr, log, warned>>

(* .var a, b = e: [S, u, e] *)
RECURSIVE Vars(_, _, _)
Vars(xs, i, a) ==
  IF i > Len(xs) THEN a
  ELSE LET k  == Key(a.S, xs[i].n)
           S1 == IF k \in DOMAIN a.S THEN [a.S EXCEPT ![k].var = TRUE, ![k].i = TRUE, ![k].v = 0]
                 ELSE (k :> [NewSym EXCEPT !.var = TRUE, !.i = TRUE, !.s = Scope, !.n = xs[i].n]) @@ a.S
       IN IF Len(xs[i].e) = 0 THEN Vars(xs, i + 1, [a EXCEPT !.S = S1])
          ELSE LET r == Eval(xs[i].e) IN
               Vars(xs, i + 1, [S |-> [Touch(S1, r.t) EXCEPT ![k].v = r.v],
                                u |-> a.u \/ r.u, e |-> a.e \/ r.e])
DoVar(s) ==
  LET a == Vars(s.xs, 1, [S |-> syms, u |-> FALSE, e |-> FALSE]) IN
  IF a.u THEN Outside ELSE IF a.e THEN Error
  ELSE /\ syms' = a.S /\ NextStmt /\ Still
       /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

(* .org and *= start a segment *)
DoOrigin(s) ==
  LET r == Eval(s.e) IN
  IF r.u \/ (final /\ (r.v < 0 \/ r.v > Top)) THEN Outside
  ELSE IF r.e \/ (s.o = "org" /\ orgd) THEN Error
  ELSE /\ pc' = r.v
       /\ seg' = [spec |-> TRUE, o |-> r.v, w |-> 0]
       /\ orgd' = (orgd \/ s.o = "org")
       /\ syms' = Touch(syms, r.t)
       /\ NextStmt /\ Still
       /\ UNCHANGED <<anon, secs, lastlab, prm, mcount, regs, mach, changed, rows, hdr, log, warned>>

DoIns(s) ==
  LET none == Len(s.e) = 0
      r == IF none THEN Val(0, 1) ELSE Eval(s.e)
  IN IF r.u \/ ~InsOk(s.m, s.k) THEN Outside ELSE
     LET x == Ins(Out, s.m, s.k, r.k, r.v) IN
     IF x.e \/ x.o.e \/ r.e THEN Error
     ELSE /\ SetOut(x.o) /\ warned' = warned + x.w
          /\ syms' = Touch(syms, r.t)
          /\ NextStmt /\ Still
          /\ UNCHANGED <<anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, log>>

DoData(s) ==
  LET a == Data(s.xs, 1, s.z, [o |-> Out, u |-> FALSE, e |-> FALSE, t |-> <<>>]) IN
  IF a.u THEN Outside ELSE IF a.e \/ a.o.e THEN Error
  ELSE /\ SetOut(a.o) /\ syms' = Touch(syms, a.t)
       /\ NextStmt /\ Still
       /\ UNCHANGED <<anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, log, warned>>

DoDs(s) ==
  LET r == Eval(s.e) IN
  IF r.u THEN Outside ELSE IF r.e \/ (final /\ r.v < 0) THEN Error
  ELSE /\ pc' = pc + (IF r.v > 0 THEN r.v ELSE 1)
       /\ syms' = Touch(syms, r.t)
       /\ NextStmt /\ Still
       /\ UNCHANGED <<seg, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

DoFill(s) ==
  LET a == Eval(s.a)
      n == Eval(s.n)
      c == IF n.v < 0 THEN 0 ELSE n.v
      o == IF ~final THEN [Out EXCEPT !.pc = @ + c]
           ELSE IF c = 0 THEN Out
           ELSE Emit(Out, [i \in 1..c |-> Byte(a.v)], "fill", "")
  IN IF a.u \/ n.u \/ c > 65535 THEN Outside
     ELSE IF a.e \/ n.e \/ o.e \/ (final /\ (n.v < 0 \/ a.v < 0 \/ a.v > 255)) THEN Error
     ELSE /\ SetOut(o) /\ syms' = Touch(Touch(syms, a.t), n.t)
          /\ NextStmt /\ Still
          /\ UNCHANGED <<anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, log, warned>>

DoLoad(s) ==
  IF ~s.ok THEN Error
  ELSE LET o == IF Len(s.b) = 0 THEN Out ELSE Emit(Out, s.b, "fill", "") IN
       IF o.e THEN Error
       ELSE /\ SetOut(o) /\ NextStmt /\ Still
            /\ UNCHANGED <<syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, log, warned>>

DoSection(s) ==
  /\ secs' = Append(secs, Join(Scope, s.n)) /\ NextStmt /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

DoEndSection(s) ==
  IF secs = <<>> THEN Error
  ELSE /\ secs' = Pop(secs) /\ NextStmt /\ Still
       /\ UNCHANGED <<pc, seg, syms, anon, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

DoMacDef(s, f) ==
  LET k  == Key(syms, s.n)
      S1 == IF k \in DOMAIN syms THEN syms ELSE (k :> [NewSym EXCEPT !.s = Scope, !.n = s.n]) @@ syms
  IN IF S1[k].mac \notin {0, s.bs[1]} THEN Outside
     ELSE
     /\ syms' = [S1 EXCEPT ![k].mac = s.bs[1], ![k].i = TRUE, ![k].lx = LexDef(s, f)]
     /\ NextStmt /\ Still
     /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

RECURSIVE Args(_, _, _)
Args(xs, i, a) ==
  IF i > Len(xs) THEN a
  ELSE LET r == Eval(xs[i]) IN
       Args(xs, i + 1, [vs |-> Append(a.vs, r.v), u |-> a.u \/ r.u, t |-> a.t \o r.t,
                        e |-> a.e \/ r.e \/ (final /\ (r.v < 0 \/ r.v > Top))])

Count(n) == IF n \in DOMAIN mcount THEN mcount[n] ELSE 0

DoCall(s) ==
  LET k == Key(syms, s.n)
      a == Args(s.as, 1, [vs |-> <<>>, u |-> FALSE, t |-> <<>>, e |-> FALSE])
  IN IF a.u \/ k \notin DOMAIN syms \/ syms[k].mac = 0 THEN Outside ELSE IF a.e THEN Error
     ELSE /\ prm' = [j \in (DOMAIN prm) \cup (1..Len(a.vs)) |->
                       IF j <= Len(a.vs) THEN a.vs[j] ELSE prm[j]]
          /\ lastlab' = s.n \o "::" \o ToString(Count(s.n))
          /\ stack' = Push(Push(Advance(stack),
                                [k |-> "mac", p |-> prm, l |-> lastlab, n |-> s.n]),
                           Blk(syms[k].mac, syms[k].lx))
          /\ syms' = Touch(syms, a.t)
          /\ Still
          /\ UNCHANGED <<pc, seg, anon, secs, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

DoIf(s, f) ==
  LET r == Eval(s.e)
      b == IF r.v # 0 THEN s.bs[1] ELSE IF Len(s.bs) > 1 THEN s.bs[2] ELSE 0
  IN IF r.u THEN Outside ELSE IF r.e THEN Error
     ELSE /\ stack' = IF b = 0 THEN Advance(stack) ELSE Push(Advance(stack), Blk(b, LexDef(s, f)))
          /\ syms' = Touch(syms, r.t) /\ Still
          /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

(* at the top of the program the test sees the table as it is when the line  *)
(* is read, inside of another statement as it was when that one was read     *)
DoIfdef(s, f) ==
  LET b == IF (s.n \in LexDef(s, f)) # s.neg THEN s.t ELSE s.f IN
  /\ stack' = IF b = 0 THEN Advance(stack) ELSE Push(Advance(stack), Blk(b, LexDef(s, f)))
  /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

(* .repeat and .do run the body first, .while tests first *)
DoLoop(s, f) ==
  /\ stack' = IF s.o = "while" THEN Push(Advance(stack), LoopFrame(f, LexDef(s, f), <<>>))
              ELSE Push(Push(Advance(stack), LoopFrame(f, LexDef(s, f), <<>>)), Blk(s.bs[1], LexDef(s, f)))
  /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

(* a loop counts in its variable, also in one from outside of the section *)
LoopSet(S, tok, v) ==
  LET k == TokKey(S, tok) IN
  IF k \in DOMAIN S /\ S[k].var
  THEN [syms |-> [S EXCEPT ![k].v = v, ![k].i = TRUE], ch |-> 0, e |-> FALSE]
  ELSE Define(S, tok, v)

DoFor(s, f) ==
  LET st == IF Len(s.s) = 0 THEN Val(1, 1) ELSE Eval(s.s)
      a  == Eval(s.a)
      d  == LoopSet(Touch(Touch(syms, st.t), a.t), s.n, a.v)
  IN IF st.u \/ a.u \/ st.v = 0 THEN Outside
     ELSE IF st.e \/ a.e \/ d.e THEN Error
     ELSE /\ syms' = d.syms /\ changed' = changed + d.ch
          /\ stack' = Push(Advance(stack), LoopFrame(f, LexDef(s, f), <<st.v, 0>>))
          /\ Still
          /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, orgd, rows, hdr, log, warned>>

DoReg(s, f) ==
  LET a == Eval(s.a)
      z == Eval(s.e)
      none == a.v < 0 \/ a.v > 255 \/ z.v < 0 \/ z.v > 255
      skip == none \/ (s.up /\ a.v > z.v) \/ (~s.up /\ a.v < z.v)
      ld == IF s.r = "x" THEN "ldx" ELSE "ldy"
      x == Ins(Out, ld, "imm", TRUE, a.v)
  IN IF a.u \/ z.u THEN Outside
     ELSE IF s.r \in regs \/ a.e \/ z.e \/ (final /\ none) \/ (~skip /\ x.o.e) THEN Error
     ELSE /\ syms' = Touch(Touch(syms, a.t), z.t)
          /\ IF skip THEN stack' = Advance(stack) /\ UNCHANGED <<regs, pc, seg, rows, hdr>>
             ELSE /\ SetOut(x.o) /\ regs' = regs \cup {s.r}
                  /\ stack' = Push(Push(Advance(stack),
                                        LoopFrame(f, LexDef(s, f), <<a.v, z.v, x.o.pc>>)),
                                   Blk(s.bs[1], LexDef(s, f)))
          /\ Still
          /\ UNCHANGED <<anon, secs, lastlab, prm, mcount, mach, changed, orgd, log, warned>>

DoInclude(s) ==
  /\ stack' = Push(Advance(stack), FileBlk(s.b))
  /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

(* items of a print line: text or the one or two bytes of a value *)
RECURSIVE Items(_, _, _)
Items(xs, i, a) ==
  IF i > Len(xs) THEN a
  ELSE IF "s" \in DOMAIN xs[i] THEN Items(xs, i + 1, [a EXCEPT !.x = Append(@, [s |-> xs[i].s])])
  ELSE LET r == Eval(xs[i].e) IN
       Items(xs, i + 1, [x |-> Append(a.x, [h |-> HiByte(r.v), l |-> Byte(r.v)]),
                         u |-> a.u \/ r.u, e |-> a.e \/ r.e, t |-> a.t \o r.t])
DoPrint(s) ==
  LET a == Items(s.xs, 1, [x |-> <<>>, u |-> FALSE, e |-> FALSE, t |-> <<>>]) IN
  IF a.u THEN Outside ELSE IF a.e THEN Error
  ELSE /\ log' = IF final \/ s.all THEN Append(log, [f |-> final, x |-> a.x]) ELSE log
       /\ syms' = Touch(syms, a.t)
       /\ NextStmt /\ Still
       /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, warned>>

DoMode(s) ==
  /\ mach' = CASE s.d = "6502"    -> [mach EXCEPT !.cpu = "6502"]
               [] s.d = "65c02"   -> [mach EXCEPT !.cpu = "65c02"]
               [] s.d = "ill"     -> [mach EXCEPT !.ill = TRUE]
               [] s.d = "noill"   -> [mach EXCEPT !.ill = FALSE]
               [] s.d = "warn"    -> [mach EXCEPT !.nowarn = FALSE]
               [] s.d = "nowarn"  -> [mach EXCEPT !.nowarn = TRUE]
               [] s.d = "c64"     -> [mach EXCEPT !.c64 = TRUE]
               [] s.d = "list"    -> [mach EXCEPT !.list = TRUE]
               [] s.d = "nolist"  -> [mach EXCEPT !.list = FALSE]
  /\ NextStmt /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, changed, orgd, rows, hdr, log, warned>>

(* nothing after .end is assembled *)
DoEnd ==
  /\ stack' = <<>> /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

DoNothing ==
  /\ NextStmt /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

Exec(s, f) ==
  IF f.f > 0 /\ ~Legal(s, LexDef(s, f)) THEN Error
  ELSE IF f.f > 0 /\ Calls(s, LexDef(s, f)) = 2 THEN Error
  ELSE IF f.f > 0 /\ Calls(s, LexDef(s, f)) = 1 THEN Outside
  ELSE CASE s.o = "lab"    -> DoLabel(s, f)
         [] s.o = "anon"   -> DoAnon(s)
         [] s.o = "eq"     -> DoAssign(s)
         [] s.o = "var"    -> DoVar(s)
         [] s.o \in {"org", "pc"} -> DoOrigin(s)
         [] s.o = "ins"    -> DoIns(s)
         [] s.o = "data"   -> DoData(s)
         [] s.o = "ds"     -> DoDs(s)
         [] s.o = "fill"   -> DoFill(s)
         [] s.o = "load"   -> DoLoad(s)
         [] s.o = "sect"   -> DoSection(s)
         [] s.o = "ends"   -> DoEndSection(s)
         [] s.o = "macdef" -> DoMacDef(s, f)
         [] s.o = "call"   -> DoCall(s)
         [] s.o = "if"     -> DoIf(s, f)
         [] s.o = "ifdef"  -> DoIfdef(s, f)
         [] s.o \in {"while", "repeat", "do"} -> DoLoop(s, f)
         [] s.o = "for"    -> DoFor(s, f)
         [] s.o = "reg"    -> DoReg(s, f)
         [] s.o = "inc"    -> DoInclude(s)
         [] s.o = "print"  -> DoPrint(s)
         [] s.o = "mode"   -> DoMode(s)
         [] s.o = "end"    -> DoEnd
         [] s.o = "nop"    -> DoNothing

-----------------------------------------------------------------------------
(* Loops, at the end of a round                                              *)

Again(f, s) == Push(Push(Pop(stack), [f EXCEPT !.n = @ + 1]), Blk(s.bs[1], f.lx))

(* .while (before the body), .repeat and .do (behind it) *)
TestLoop(f, s) ==
  LET r == Eval(s.e)
      go == IF s.o = "repeat" THEN r.v = 0 ELSE r.v # 0
      body == s.o # "while" \/ f.n > 0
  IN IF body /\ pc > Top + 1 THEN Error
     ELSE IF r.u \/ f.n > MaxLoop THEN Outside
     ELSE IF r.e THEN Error
     ELSE /\ stack' = IF go THEN Again(f, s) ELSE Pop(stack)
          /\ syms' = Touch(syms, r.t) /\ Still
          /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

(* the end value is computed once, the variable may change in the body *)
TestFor(f, s) ==
  LET z   == IF f.n = 0 THEN Eval(s.e) ELSE [Val(f.x[2], 1) EXCEPT !.u = FALSE]
      S0  == Touch(syms, z.t)
      d   == IF f.n = 0 THEN [syms |-> S0, ch |-> 0, e |-> FALSE]
             ELSE LoopSet(S0, s.n, S0[TokKey(S0, s.n)].v + f.x[1])
      cur == d.syms[TokKey(d.syms, s.n)].v
      go  == IF f.x[1] > 0 THEN cur <= z.v ELSE cur >= z.v
  IN IF f.n > 0 /\ pc > Top + 1 THEN Error
     ELSE IF z.u \/ f.n > MaxLoop THEN Outside
     ELSE IF z.e \/ d.e THEN Error
     ELSE /\ stack' = IF go THEN Again([f EXCEPT !.x[2] = z.v], s) ELSE Pop(stack)
          /\ syms' = d.syms /\ changed' = changed + d.ch /\ Still
          /\ UNCHANGED <<pc, seg, anon, secs, lastlab, prm, mcount, regs, mach, orgd, rows, hdr, log, warned>>

(* the code behind the body of a register loop *)
EndReg(f, s) ==
  LET a == f.x[1]
      z == f.x[2]
      step == (IF s.up THEN "in" ELSE "de") \o s.r
      cmp == "cp" \o s.r
      o1 == Plain(Out, step, "imp", 0).o
      o2 == IF z = 0 \/ (s.up /\ z = 255) THEN o1
            ELSE Plain(o1, cmp, "imm", IF s.up THEN z + 1 ELSE z).o
      x  == Branch(o2, IF ~s.up THEN "bcs" ELSE IF z < 255 THEN "bcc" ELSE "bne", TRUE, f.x[3])
  IN /\ Assert(f.n = 0, "register loop")
     /\ IF a = z
        THEN UNCHANGED <<pc, seg, rows, hdr, warned>> /\ stack' = Pop(stack) /\ regs' = regs \ {s.r} /\ Still
             /\ UNCHANGED <<syms, anon, secs, lastlab, prm, mcount, mach, changed, orgd, log>>
        ELSE IF x.e \/ x.o.e THEN Error
        ELSE SetOut(x.o) /\ warned' = warned + x.w /\ stack' = Pop(stack) /\ regs' = regs \ {s.r} /\ Still
             /\ UNCHANGED <<syms, anon, secs, lastlab, prm, mcount, mach, changed, orgd, log>>

Loop(f) ==
  LET s == Stmt(f.b, f.i) IN
  CASE s.o \in {"while", "repeat", "do"} -> TestLoop(f, s)
    [] s.o = "for" -> TestFor(f, s)
    [] s.o = "reg" -> EndReg(f, s)

Return(f) ==
  /\ prm' = f.p /\ lastlab' = f.l
  /\ mcount' = (f.n :> Count(f.n) + 1) @@ mcount
  /\ stack' = Pop(stack) /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, regs, mach, changed, orgd, rows, hdr, log, warned>>

EndBlock ==
  /\ stack' = Pop(stack) /\ Still
  /\ UNCHANGED <<pc, seg, syms, anon, secs, lastlab, prm, mcount, regs, mach, changed, orgd, rows, hdr, log, warned>>

-----------------------------------------------------------------------------
(* Passes                                                                    *)

NoSeg == [spec |-> FALSE, o |-> 0, w |-> 0]
NoFn == [x \in {} |-> 0]

Mains == IF Enum THEN <<1>> ELSE Programs[prog].mains
(* the input files, the first on top *)
StartStack == [j \in 1..Len(Mains) |-> FileBlk(Mains[Len(Mains) + 1 - j])]

StartMach == [cpu |-> Opts.cpu, ill |-> Opts.ill, nowarn |-> Opts.nowarn, c64 |-> Opts.c64, list |-> TRUE]

Clean == changed = 0 /\ Unresolved = {}

EndPass ==
  IF final THEN Finish("ok")
  ELSE IF ~Clean /\ pass >= MaxPass THEN Error
  ELSE /\ final' = Clean /\ pass' = pass + 1
       /\ stack' = StartStack /\ pc' = DefaultOrigin /\ seg' = NoSeg
       /\ secs' = <<>> /\ lastlab' = "" /\ mcount' = NoFn /\ regs' = {}
       /\ mach' = [StartMach EXCEPT !.c64 = mach.c64]
       /\ changed' = 0 /\ orgd' = FALSE
       (* what counts is what the last pass refers to *)
       /\ syms' = [k \in DOMAIN syms |-> [syms[k] EXCEPT !.r = FALSE]]
       /\ UNCHANGED <<prog, choice, ph, res, anon, prm, rows, hdr, log, warned>>

RECURSIVE CmdSyms(_)
CmdSyms(ds) ==
  IF ds = <<>> THEN NoFn
  ELSE (Head(ds).n :> [NewSym EXCEPT !.v = Head(ds).v, !.i = TRUE, !.d = TRUE, !.n = Head(ds).n])
       @@ CmdSyms(Tail(ds))

Start(p, c) ==
  /\ prog = p /\ choice = c /\ ph = "pass" /\ res = "" /\ pass = 1 /\ final = FALSE
  /\ stack = StartStack /\ pc = DefaultOrigin /\ seg = NoSeg
  /\ syms = CmdSyms(Opts.d)
  /\ anon = NoFn /\ secs = <<>> /\ lastlab = "" /\ prm = NoFn /\ mcount = NoFn /\ regs = {}
  /\ mach = StartMach
  /\ changed = 0 /\ orgd = FALSE /\ rows = <<>> /\ hdr = -1 /\ log = <<>> /\ warned = 0

Init ==
  \/ \E p \in 1..Len(Programs) : Start(p, <<>>)
  \/ \E p \in 1..Len(Alphabets) :
       \E n \in Alphabets[p].min..Alphabets[p].max :
         \E c \in [1..n -> 1..Alphabets[p].k] : Start(p, c)

Step ==
  IF stack = <<>> THEN EndPass
  ELSE LET f == TopF IN
       CASE f.k = "loop" -> Loop(f)
         [] f.k = "mac"  -> Return(f)
         [] f.k = "blk"  -> IF f.i > BlockLen(f.b) THEN EndBlock ELSE Exec(Stmt(f.b, f.i), f)

Next == ph = "pass" /\ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* What every behaviour guarantees                                           *)

TypeOK ==
  /\ ph \in {"pass", "done"} /\ res \in {"", "ok", "error", "undefined"}
  /\ (ph = "done") = (res # "")
  /\ pass \in 1..(MaxPass + 1)
  /\ changed >= 0 /\ warned >= 0
  /\ \A k \in DOMAIN syms : syms[k].mac # 0 => syms[k].i

(* output only in the final pass *)
OutputLast == ~final => rows = <<>> /\ hdr = -1 /\ warned = 0

(* the final pass finds every symbol with the value that it has *)
FinalStable == final => changed = 0
FinalResolved == final => Unresolved = {}

(* the bytes of a segment follow each other in memory as they do in the file *)
Contiguous ==
  ph = "done" => \A j \in 2..Len(rows) :
    rows[j].s = rows[j-1].s => rows[j].pc <= rows[j-1].pc + Len(rows[j-1].b) \/ rows[j].pc = rows[j].s

(* no instruction has a longer operand than it needs *)
ShortMode(mode) == CASE mode = "abs" -> "zp" [] mode = "abx" -> "zpx" [] mode = "aby" -> "zpy" [] OTHER -> ""
LongForm(set, r) ==
  \E mode \in DOMAIN set[r.m] :
    /\ mode \in TwoByteModes /\ set[r.m][mode] = r.b[1]
    /\ ShortMode(mode) \notin DOMAIN set[r.m]
Shortest ==
  ph = "done" => \A j \in 1..Len(rows) :
    rows[j].k = "ins" /\ Len(rows[j].b) = 3 /\ rows[j].b[3] = 0 =>
      \E cpu \in {"6502", "65c02"}, ill \in BOOLEAN :
        rows[j].m \in DOMAIN InstrSet(cpu, ill) /\ LongForm(InstrSet(cpu, ill), rows[j])

BytesOk == ph = "done" => \A j \in 1..Len(rows) : \A n \in 1..Len(rows[j].b) : rows[j].b[n] \in 0..255

(* a definition inside of a section leaves the symbols of the outside alone *)
SectionsIsolate ==
  [][\A k \in DOMAIN syms :
       syms[k].s = "" /\ syms[k].i /\ ~syms[k].var /\ ~syms[k].loc /\ secs # <<>> /\ ph = "pass" /\ stack # <<>>
         => k \in DOMAIN syms' /\ syms'[k].v = syms[k].v]_vars

(* nothing is ever forgotten *)
Grows == [][DOMAIN syms \subseteq DOMAIN syms' /\ pass <= pass']_vars

Terminates == <>(ph = "done")
=============================================================================
