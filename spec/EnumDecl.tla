------------------------------ MODULE EnumDecl ------------------------------
(* The derive: how a declaration is numbered, validated and laid out.        *)
(*                                                                           *)
(* A declaration is a record                                                 *)
(*   vs      sequence of variants [lit |-> L, data |-> BOOLEAN]              *)
(*   repr    "none" | "u8" .. "u128" | "array" | anything else (unknown)     *)
(*   ser     "none" | "u8" .. "u128" | "array" | "list" | "map" | else       *)
(*   generic BOOLEAN                                                         *)
(*   item    "enum" | "struct" | "union"                                     *)
(*   flags   set of option names without values                              *)
(*   supers  BOOLEAN: the user implements Copy, Clone, Eq and PartialEq      *)
(* A literal L is one of                                                     *)
(*   [k |-> "impl"]          no discriminant written                         *)
(*   [k |-> "int", n |-> n]  integer literal n (n < 2^31)                    *)
(*   [k |-> "top", n |-> n]  integer literal 0xFFFFFFC0 + n, -64 <= n < 64   *)
(*   [k |-> "neg", n |-> n]  the literal -n                                  *)
(*   [k |-> "expr", n |-> n] an expression, not a literal, of value n        *)
(*   [k |-> "huge", n |-> n] an integer literal of 2^32 + n, n >= 0          *)
(*                                                                           *)
(* TLC's integers have 32 bits, so discriminants are pairs <<page, n>> with  *)
(* page 0 for the number n and page 1 for 0xFFFFFFC0 + n, in lexicographic   *)
(* order (nothing in between the pages is ever declared).                    *)
EXTENDS Bits

PrimReprs == {"u8", "u16", "u32", "u64", "u128"}
Width(r) == CASE r = "u8" -> 8 [] r = "u16" -> 16 [] r = "u32" -> 32
              [] r = "u64" -> 64 [] r = "u128" -> 128
SerReprs == PrimReprs \cup {"array", "list", "map"}
LegacyFlags == {"serialize_as_list", "serialize_as_map"}   \* deprecated
Flags == {"no_ops", "no_super_impls", "serialize_deny_unknown"} \cup LegacyFlags
(* The format that options ask for; the older ones go first.                 *)
SerOption(d) == IF "serialize_as_list" \in d.flags THEN "list"
                ELSE IF "serialize_as_map" \in d.flags THEN "map" ELSE d.ser

Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Succ(p) == <<p[1], p[2] + 1>>
TooLarge(p) == p[1] = 1 /\ p[2] >= 0

-----------------------------------------------------------------------------
(* The declarative reading: what the documentation says.                     *)

Numbered(vs) ==   \* the discriminants, in order, as Rust assigns them
    LET Next(ns, v) ==
          LET l == v.lit
              n == CASE l.k = "impl" -> IF ns = <<>> THEN <<0, 0>>
                                        ELSE Succ(ns[Len(ns)])
                     [] l.k = "int"  -> <<0, l.n>>
                     [] l.k = "top"  -> <<1, l.n>>
                     [] l.k = "expr" -> <<0, l.n>>
                     [] l.k = "neg"  -> <<-1, -l.n>>
                     [] l.k = "huge" -> <<2, l.n>>
          IN Append(ns, n)
    IN FoldLeft(Next, <<>>, vs)

Documented(d) ==
    LET ns == Numbered(d.vs) IN
    /\ d.item = "enum" /\ ~d.generic
    /\ d.flags \subseteq Flags
    \* the derive provides the traits, or else the user has to
    /\ d.supers <=> "no_super_impls" \in d.flags
    /\ \A i \in DOMAIN d.vs : ~d.vs[i].data
    /\ \A i \in DOMAIN d.vs : d.vs[i].lit.k \in {"impl", "int", "top"}
    /\ \A i \in DOMAIN ns : ~TooLarge(ns[i])
    /\ Cardinality(Range(ns)) = Len(ns)
    /\ d.repr \in PrimReprs \cup {"none", "array"}
    /\ d.ser \in SerReprs \cup {"none"}
    /\ d.repr \in PrimReprs =>
           \A i \in DOMAIN ns : Less(ns[i], <<0, Width(d.repr)>>)
    /\ SerOption(d) \in PrimReprs =>
           \A i \in DOMAIN ns : Less(ns[i], <<0, Width(SerOption(d))>>)

(* For accepted declarations whose discriminants are all on page 0.          *)
Discs(d) == {Numbered(d.vs)[i][2] : i \in DOMAIN d.vs}
BitWidth(D) == IF D = {} THEN 0 ELSE Max(D) + 1
HasReprConversions(d) == d.repr \in PrimReprs
HasOperators(d) == "no_ops" \notin d.flags

(* The serialization format in force ("auto" choice of the documentation).   *)
SerKind(ser, D) ==
    IF ser # "none" THEN ser
    ELSE LET w == BitWidth(D) IN
         CASE w <= 8 -> "u8" [] w > 8 /\ w <= 16 -> "u16"
           [] w > 16 /\ w <= 32 -> "u32" [] w > 32 /\ w <= 64 -> "u64"
           [] w > 64 /\ w <= 128 -> "u128" [] w > 128 -> "array"

-----------------------------------------------------------------------------
(* The derive as the code runs it: options first, then one variant at a time *)
(* with the running discriminant, then validation against the maxima.        *)
CONSTANT Decls          \* the declarations explored

VARIABLES input,        \* the declaration at hand
          pos,          \* variants consumed
          cur,          \* discriminant of the next implicit variant
          used,         \* discriminants seen
          top,          \* largest discriminant seen
          verdict       \* "open" | "accept" | "reject"
dvars == <<input, pos, cur, used, top, verdict>>

DInit == /\ input \in Decls
         /\ pos = 0 /\ cur = <<0, 0>> /\ used = {} /\ top = <<0, 0>>
         /\ verdict = "open"

RejectNow(cond) == /\ verdict = "open" /\ cond
                   /\ verdict' = "reject"
                   /\ UNCHANGED <<input, pos, cur, used, top>>

AtVariant == pos < Len(input.vs)
V == input.vs[pos + 1]
Value == CASE V.lit.k = "impl" -> cur
           [] V.lit.k = "int" -> <<0, V.lit.n>>
           [] V.lit.k = "top" -> <<1, V.lit.n>>

BadOptions == input.generic \/ input.item # "enum"
           \/ ~(input.flags \subseteq Flags)
           \/ input.repr \notin PrimReprs \cup {"none", "array"}
           \/ input.ser \notin SerReprs \cup {"none"}
BadLiteral == AtVariant /\ (V.data \/ V.lit.k \in {"neg", "expr", "huge"})
BadValue == AtVariant /\ ~BadLiteral /\ (TooLarge(Value) \/ Value \in used)

RejectOptions == pos = 0 /\ RejectNow(BadOptions)
RejectLiteral == ~BadOptions /\ RejectNow(BadLiteral)
RejectValue == ~BadOptions /\ RejectNow(BadValue)
PushVariant ==
    /\ verdict = "open" /\ ~BadOptions /\ AtVariant /\ ~BadLiteral /\ ~BadValue
    /\ pos' = pos + 1
    /\ cur' = Succ(Value)
    /\ used' = used \cup {Value}
    /\ top' = IF Less(top, Value) THEN Value ELSE top
    /\ UNCHANGED <<input, verdict>>
Small(r) == r \in PrimReprs /\ ~Less(top, <<0, Width(r)>>)
RejectSmall == ~BadOptions /\ ~AtVariant
               /\ RejectNow(Small(input.repr) \/ Small(SerOption(input)))
(* What the derive writes is compiled: impls may be missing or double.       *)
Uncompilable == input.supers # ("no_super_impls" \in input.flags)
Generated == verdict = "open" /\ ~BadOptions /\ ~AtVariant
             /\ ~Small(input.repr) /\ ~Small(SerOption(input))
RejectCompile == Generated /\ RejectNow(Uncompilable)
Accept == /\ Generated /\ ~Uncompilable
          /\ verdict' = "accept"
          /\ UNCHANGED <<input, pos, cur, used, top>>

DNext == RejectOptions \/ RejectLiteral \/ RejectValue \/ PushVariant
         \/ RejectSmall \/ RejectCompile \/ Accept
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(DNext)

(* The algorithm decides exactly what is documented, and numbers as Rust.    *)
VerdictRight == /\ verdict = "accept" => Documented(input)
                /\ verdict = "reject" => ~Documented(input)
NumberingRight ==
    verdict = "accept" => used = Range(Numbered(input.vs))
                          /\ (used # {} => \A p \in used : ~Less(top, p))
EventuallyDecided == <>(verdict # "open")
=============================================================================
