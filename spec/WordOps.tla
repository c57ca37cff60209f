------------------------------ MODULE WordOps -------------------------------
(* The word-wise operations of the representations, and the abstraction from *)
(* arrays of words to sets: element b is bit b % WordBits of word            *)
(* b \div WordBits.                                                          *)
EXTENDS Integers, Sequences

CONSTANTS WordBits, \* bits of a word
          NW        \* words of a set
VARIABLE dis        \* the discriminants

W0 == 0 .. NW - 1
Bit == 0 .. WordBits - 1
Zero == [i \in W0 |-> {}]
ALL == [i \in W0 |-> {b \in Bit : i * WordBits + b \in dis}]

(* Word-wise operations, as in the impls of BitAnd, BitOr, BitXor, Not.      *)
And(x, y) == [i \in W0 |-> x[i] \cap y[i]]
Or(x, y) == [i \in W0 |-> x[i] \cup y[i]]
Xor(x, y) == [i \in W0 |-> (x[i] \ y[i]) \cup (y[i] \ x[i])]
Not(x) == [i \in W0 |-> Bit \ x[i]]
AndNot(x, y) == [i \in W0 |-> x[i] \cap (Bit \ y[i])]
IsZero(x) == \A i \in W0 : x[i] = {}
SplitW(b) == b \div WordBits
SplitB(b) == b % WordBits
AddBit(x, b) == [x EXCEPT ![SplitW(b)] = @ \cup {SplitB(b)}]
RemoveBit(x, b) == [x EXCEPT ![SplitW(b)] = @ \ {SplitB(b)}]
HasBit(x, b) == SplitB(b) \in x[SplitW(b)]
HighZero(x, k) == \A i \in W0 : i >= k => x[i] = {}

(* The layer above: constructors check or mask with ALL.                     *)
Checked(o) == IF o = <<>> THEN <<>>
              ELSE IF IsZero(AndNot(o[1], ALL)) THEN o ELSE <<>>

(* What an array of words stands for, and an iterator over words f to r.     *)
AbsSet(x) == UNION {{i * WordBits + b : b \in x[i]} : i \in W0}
AbsIt(s) == UNION {{i * WordBits + b : b \in s.data[i]} : i \in s.f .. s.r}
=============================================================================
