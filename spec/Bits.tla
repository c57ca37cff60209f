-------------------------------- MODULE Bits --------------------------------
(* Numbers and word arrays as finite sets of bit positions.                  *)
(*                                                                           *)
(* An integer of the library (u8 .. u128, usize) is the set of the positions *)
(* of its one bits; a buffer of u64 is a sequence of such sets, element i    *)
(* (counting from 0) holding the positions 64*i .. 64*i+63.  TLC's integers  *)
(* have 32 bits; as sets of positions, 128-bit numbers and arrays of any     *)
(* length are no problem, and "bit n" is what the documentation talks about. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions,
        SequencesExt, TLC

CONSTANT WordBits   \* 64, except in small models of the same algorithms

(* The elements of a set of integers, in increasing / decreasing order.      *)
Asc(S) == SortSeq(SetToSeq(S), <)
Desc(S) == Reverse(Asc(S))

StrictlyAscending(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
NoRepeats(s) == Cardinality(Range(s)) = Len(s)

(* A number fits w bits; its truncation to w bits.                           *)
Fits(S, w) == \A x \in S : x < w
Trunc(S, w) == {x \in S : x < w}

(* Word i (from 0) of a number; the n-word array form; and back.             *)
WordW(W, S, i) == {x - W * i : x \in {y \in S : y \div W = i}}
WordsW(W, S, n) == [i \in 1 .. n |-> WordW(W, S, i - 1)]
BitsOfWordsW(W, ws) ==
    UNION {{W * (i - 1) + x : x \in ws[i]} : i \in DOMAIN ws}

Word(S, i) == WordW(WordBits, S, i)
Words(S, n) == WordsW(WordBits, S, n)
BitsOfWords(ws) == BitsOfWordsW(WordBits, ws)

(* Words needed for a number with largest bit m.                             *)
WordsFor(m) == m \div WordBits + 1
=============================================================================
