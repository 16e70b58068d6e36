-------------------------------- MODULE Bits --------------------------------
(* Two's complement arithmetic on the integers of TLC.                      *)
(* A value that leaves the interval -Lim .. Lim is reported as "overflow";  *)
(* programs that overflow are outside the domain of the properties.         *)
EXTENDS Integers, Bitwise

Lim == 536870911

Abs(x) == IF x < 0 THEN -x ELSE x
InLim(x) == x >= -Lim /\ x <= Lim

(* bitwise operators of CommunityModules take naturals; negative operands   *)
(* are reduced to naturals through  ~x = -x-1                               *)
Cpl(x) == (-x) - 1
RECURSIVE BAnd(_, _)
BAnd(a, b) ==
  IF a >= 0 /\ b >= 0 THEN a & b
  ELSE IF a < 0 /\ b < 0 THEN Cpl(Cpl(a) | Cpl(b))
  ELSE IF a < 0 THEN b - (b & Cpl(a))
  ELSE BAnd(b, a)
BOr(a, b)  == Cpl(BAnd(Cpl(a), Cpl(b)))
BXor(a, b) == BAnd(BOr(a, b), Cpl(BAnd(a, b)))

Pow2 == [n \in 0..28 |-> 2^n]

(* division of C truncates toward zero *)
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))

MulOver(a, b) == a # 0 /\ b # 0 /\ Abs(b) > Lim \div Abs(a)

Byte(v)   == v % 256
HiByte(v) == (v \div 256) % 256
Word(v)   == <<Byte(v), HiByte(v)>>
=============================================================================
