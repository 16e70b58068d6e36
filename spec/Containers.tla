----------------------------- MODULE Containers -----------------------------
(* The two containers the assembler keeps everything in: the dictionary      *)
(* (symbols, macros) and the stack (files, conditionals).  TLC runs every    *)
(* sequence of MaxOps operations; the same operations are then run on the    *)
(* real containers, which have to answer the same.                           *)
(* A dictionary maps a key, spelled in any case, to the values inserted and  *)
(* not yet deleted, the latest first.  "many" inserts so many                *)
(* further keys that the table of the dictionary has to grow, "thin" deletes *)
(* every third of them, "sum" counts those that have their value.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Kinds

Keys  == {"k", "q"}
(* the same keys, written otherwise *)
Spell == "k" :> "k" @@ "K" :> "k" @@ "q" :> "q"
Many  == 1000
Burst == 30

VARIABLES kind, ops, answers, d, many, thin, s
vars == <<kind, ops, answers, d, many, thin, s>>

Init ==
  /\ kind \in Kinds
  /\ ops = <<>> /\ answers = <<>>
  /\ d = [k \in Keys |-> <<>>] /\ many = 0 /\ thin = {} /\ s = <<>>

Did(o, a) == ops' = Append(ops, o) /\ answers' = Append(answers, a) /\ kind' = kind
Val == Len(ops) + 1     \* every insertion has a value of its own

DictOp ==
  /\ kind = "dict" /\ UNCHANGED s
  /\ \/ \E w \in DOMAIN Spell :
          /\ d' = [d EXCEPT ![Spell[w]] = <<Val>> \o @]
          /\ Did("ins " \o w \o " " \o ToString(Val), 0) /\ UNCHANGED <<many, thin>>
     \/ \E w \in DOMAIN Spell :
          /\ Did("get " \o w, IF d[Spell[w]] = <<>> THEN 0 ELSE d[Spell[w]][1])
          /\ UNCHANGED <<d, many, thin>>
     \/ \E w \in {"k", "K"} :
          /\ d' = [d EXCEPT ![Spell[w]] = IF @ = <<>> THEN @ ELSE Tail(@)]
          /\ Did("del " \o w, 0) /\ UNCHANGED <<many, thin>>
     \/ /\ many' = many + 1 /\ many < 3 /\ Did("many " \o ToString(many), 0) /\ UNCHANGED <<d, thin>>
     \/ \E j \in (0..many - 1) \ thin :
          thin' = thin \cup {j} /\ Did("thin " \o ToString(j), 0) /\ UNCHANGED <<d, many>>
     \/ \E j \in 0..many - 1 :
          /\ Did("sum " \o ToString(j), IF j \in thin THEN Many - (Many + 2) \div 3 ELSE Many)
          /\ UNCHANGED <<d, many, thin>>

(* the value pushed by the j-th push of a burst is Val * 1000 + j *)
StackOp ==
  /\ kind = "stack" /\ UNCHANGED <<d, many, thin>>
  /\ \/ s' = Append(s, Val) /\ Did("push " \o ToString(Val), Len(s))
     \/ s' = s \o [j \in 1..Burst |-> Val * 1000 + j] /\ Did("burst " \o ToString(Val), Len(s) + Burst - 1)
     \/ s # <<>> /\ s' = SubSeq(s, 1, Len(s) - 1) /\ Did("pop", s[Len(s)])
     \/ Len(s) >= Burst /\ s' = SubSeq(s, 1, Len(s) - Burst + 1) /\ Did("popmany", s[Len(s) - Burst + 2])
     \/ s # <<>> /\ Did("top", s[Len(s)]) /\ UNCHANGED s
     \/ s # <<>> /\ Did("at 0", s[1]) /\ UNCHANGED s
     \/ Len(s) > 1 /\ Did("at 1", s[2]) /\ UNCHANGED s
     \/ s' = <<>> /\ Did("clear", 0)

Next == Len(ops) < MaxOps /\ (DictOp \/ StackOp)
Spec == Init /\ [][Next]_vars

(* a key keeps what was inserted last and not deleted *)
Latest == \A k \in Keys : \A i, j \in 1..Len(d[k]) : i < j => d[k][i] > d[k][j]
Report == Len(ops) = MaxOps => PrintT(ToJson([kind |-> kind, ops |-> ops, answers |-> answers]))
=============================================================================
