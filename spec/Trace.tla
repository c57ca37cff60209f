------------------------------- MODULE Trace --------------------------------
(* Trace validation: is a log recorded from the real crate a behaviour of    *)
(* the specification?                                                        *)
(*                                                                           *)
(* Every line of the log is one public call, made on all members of a group  *)
(* of enums (usually one) in lock step: op, arguments, and for each member   *)
(* the outcome [k, r] and post, the set variables whose projection changed.  *)
(* The projection of a set is the ascending discriminants of the variants    *)
(* that it `contains`, followed by -1 if it is not equal to the set of these *)
(* variants (or of another length), or -2 if looking at it panicked.         *)
(*                                                                           *)
(* The first line says how to judge:                                         *)
(*   mode "exact"  calls in `own` must be steps of the specification; other  *)
(*                 calls are not judged, the state is taken over from them.  *)
(*   mode "valid"  the state is always taken over; every set and everything  *)
(*                 yielded must consist of variants.                         *)
(*   mode "agree"  the state is taken over; all members must agree.          *)
(* If `strict` is false, -1 and -2 are left out of projections: a property   *)
(* about elements then sees a set with stray bits as the set of its elements.*)
EXTENDS Calls, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<decl, reg, it, ord, hsh, out, l>>

Mode == Log[1].mode
Own == Range(Log[1].own)
E == Log[l]
O == E.obs[1]

IsOk == O.k = "ok"
Strict == Log[1].strict
SetOfBits(p) == IF Strict THEN Range(p) ELSE {x \in Range(p) : x >= 0}
Observed(o) ==
    [x \in DOMAIN reg |->
        IF \E n \in DOMAIN o.post : o.post[n][1] = x
        THEN LET n == CHOOSE n \in DOMAIN o.post : o.post[n][1] = x
             IN SetOfBits(o.post[n][2])
        ELSE reg[x]]

-----------------------------------------------------------------------------
(* Calls whose result is learned or free: what they return is in the action. *)
Free == {"ser", "ser_fail", "fmt_lim"}
SameOutcome(o) == /\ out'.k = o.k
                  /\ E.op \in Free \/ out'.r = o.r

-----------------------------------------------------------------------------
TakeOver == /\ reg' = Observed(O)
            /\ out' = [k |-> O.k, r |-> <<>>]
            /\ IF E.op \in {"iter", "iter_clone"}
               THEN it' = (E.i :> {}) @@ it ELSE UNCHANGED it
            /\ UNCHANGED <<decl, ord, hsh>>

Declare ==
    /\ E.op = "decl"
    /\ decl' = [D |-> Range(E.D), w |-> E.w, kind |-> E.kind, deny |-> E.deny,
                ops |-> IF "ops" \in DOMAIN E THEN E.ops ELSE TRUE]
    /\ reg' = [x \in 1 .. E.nreg |-> {}]
    /\ it' = <<>> /\ ord' = {} /\ hsh' = <<>> /\ out' = Ok(Unit)

Exact == IF E.op \in Own
         THEN Call(E, [k |-> O.k, r |-> O.r, set |-> IF "d" \in DOMAIN E THEN Observed(O)[E.d] ELSE {}]) /\ reg' = Observed(O) /\ SameOutcome(O)
         ELSE TakeOver

Yields == {"next", "next_back", "nth", "nth_back", "last", "rest", "rest_back"}
Valid == /\ TakeOver
         /\ \A x \in DOMAIN reg' : reg'[x] \subseteq D
         /\ E.op \in Yields /\ IsOk => Range(O.r) \subseteq D
         /\ E.op = "len" /\ IsOk => O.r = Cardinality(reg[E.a])

(* Members agree: the same kind of outcome, the same result, the same states.*)
(* How many trailing zero words the Vec form has may differ.                 *)
NoZeroTail(ws) ==
    LET used == {0} \cup {n \in DOMAIN ws : ws[n] # <<>>}
    IN SubSeq(ws, 1, Max(used))
Comparable(o) == IF E.op = "to_vec" /\ o.k = "ok" THEN NoZeroTail(o.r) ELSE o.r
Agree == /\ TakeOver
         /\ \A n \in DOMAIN E.obs :
                /\ E.obs[n].k = O.k
                /\ Comparable(E.obs[n]) = Comparable(O)
                /\ Observed(E.obs[n]) = reg'

TInit == /\ l = 2
         /\ decl = [D |-> {}, w |-> 0, kind |-> "none", deny |-> FALSE, ops |-> TRUE]
         /\ reg = <<>> /\ it = <<>> /\ ord = {} /\ hsh = <<>> /\ out = Ok(Unit)
TNext == /\ l <= Len(Log) /\ l' = l + 1
         /\ IF E.op = "decl" THEN Declare
            ELSE CASE Mode = "exact" -> Exact
                   [] Mode = "valid" -> Valid
                   [] Mode = "agree" -> Agree
TSpec == TInit /\ [][TNext]_tvars

(* Every line was consumed.                                                  *)
Accepted == TLCGet("stats").diameter = Len(Log)
=============================================================================
