------------------------------- MODULE MC_Decl ------------------------------
(* The derive's algorithm decides what is documented and numbers as Rust     *)
(* does, for every declaration of up to MaxLen variants over small numbers   *)
(* around the limits, with odd literals, data, generics and every option.    *)
EXTENDS EnumDecl
CONSTANT MaxLen
MCLits == {[k |-> "impl"]} \cup {[k |-> "int", n |-> n] : n \in {0, 1, 2, 7, 8, 127, 128}}
          \cup {[k |-> "top", n |-> n] : n \in {-2, -1, 0}}
          \cup {[k |-> x, n |-> 1] : x \in {"neg", "expr", "huge"}}
MCVariants == [lit : MCLits, data : {FALSE}] \cup {[lit |-> [k |-> "impl"], data |-> TRUE]}
MCDecls == [vs : UNION {[1 .. n -> MCVariants] : n \in 0 .. MaxLen},
            repr : {"none", "u8", "u128", "array", "u7"},
            ser : {"none", "u8", "u16", "list", "bogus"},
            generic : {FALSE}, item : {"enum"}, flags : {{}}, supers : {FALSE}]
           \cup [vs : [1 .. 1 -> MCVariants], repr : PrimReprs \cup {"none", "array"},
                 ser : SerReprs \cup {"none"}, generic : BOOLEAN,
                 item : {"enum"}, flags : {{}}, supers : {FALSE}]
           \cup [vs : [1 .. 1 -> MCVariants], repr : {"none", "u8", "array"},
                 ser : {"none", "u8"}, generic : {FALSE}, item : {"enum", "struct", "union"},
                 flags : SUBSET (Flags \cup {"bogus"}), supers : BOOLEAN]
(* The default formats of the documentation agree with the layout.           *)
DefaultsFit ==
    (verdict = "accept" /\ (\A p \in used : p[1] = 0)) =>
        LET k == SerKind(SerOption(input), Discs(input)) IN
        k \in PrimReprs => BitWidth(Discs(input)) <= Width(k)
Counts == verdict = "accept" => Cardinality(used) = Len(input.vs)
=============================================================================
