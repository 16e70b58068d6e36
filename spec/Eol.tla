-------------------------------- MODULE Eol ---------------------------------
(* What eolconvert makes of a file: in a text every end of a line, written   *)
(* as CR LF, LF CR, CR or LF, becomes one LF, and nothing else changes; a    *)
(* file with any other character that cannot be printed stays as it is.      *)
(* TLC runs the converter over every file of at most MaxLen characters.      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen

(* a: some characters that can be printed, r: CR, n: LF, b: any other byte *)
Chars == {"a", "r", "n", "b"}
IsEol(ch) == ch \in {"r", "n"}

VARIABLES text, i, out
vars == <<text, i, out>>

IsText == \A j \in 1..Len(text) : text[j] # "b"

Init == /\ text \in UNION {[1..n -> Chars] : n \in 0..MaxLen}
        /\ i = 1 /\ out = <<>>

Copy == /\ ~IsText \/ ~IsEol(text[i])
        /\ out' = Append(out, text[i]) /\ i' = i + 1

EndOfLine == /\ IsText /\ IsEol(text[i])
             /\ out' = Append(out, "n")
             /\ i' = IF i < Len(text) /\ IsEol(text[i + 1]) /\ text[i + 1] # text[i] THEN i + 2 ELSE i + 1

Next == i <= Len(text) /\ text' = text /\ (Copy \/ EndOfLine)

Spec == Init /\ [][Next]_vars

Done == i > Len(text)
Clean == IsText => \A j \in 1..Len(out) : out[j] # "r"
(* the characters of the text, without the ends of its lines, are all there *)
Letters(s) == Len(SelectSeq(s, LAMBDA ch : ~IsEol(ch)))
Kept == Done => Letters(out) = Letters(text)
Untouched == (Done /\ ~IsText) => out = text
(* converting once more changes nothing *)
Fixed == (Done /\ IsText) => \A j \in 1..Len(out) : out[j] = "n" \/ ~IsEol(out[j])
Report == Done => PrintT(ToJson([text |-> text, out |-> out]))
=============================================================================
