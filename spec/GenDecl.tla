------------------------------ MODULE GenDecl -------------------------------
(* Declarations, decided by the specification, for the real derive: every    *)
(* behaviour of the derive's algorithm (EnumDecl) ends in a verdict, which   *)
(* is written to OUT together with the numbering that holds if accepted.     *)
(* GEN (one line) says which families to enumerate and from which numbers.   *)
EXTENDS EnumDecl, CSV, Json, IOUtils, TLC

Conf == ndJsonDeserialize(IOEnv.GEN)[1]

Impl == [k |-> "impl"]
IntLit(n) == [k |-> "int", n |-> n]
Var(l) == [lit |-> l, data |-> FALSE]
Vs(s) == [i \in DOMAIN s |-> Var(s[i])]
SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Decl(vs, r, s) == [vs |-> vs, repr |-> r, ser |-> s, generic |-> FALSE,
                   item |-> "enum", flags |-> {}, supers |-> FALSE]

(* Numbering: every sequence of literals and gaps in literals.               *)
NumLits == {Impl} \cup {IntLit(n) : n \in Range(Conf.nums)}
Numberings == {Decl(Vs(s), "none", "none") : s \in SeqsUpTo(NumLits, Conf.numlen)}

(* One odd thing among ordinary variants.                                    *)
OddLits == {[k |-> "neg", n |-> 1], [k |-> "neg", n |-> 128], [k |-> "expr", n |-> 3],
            [k |-> "expr", n |-> 0], [k |-> "huge", n |-> 0], [k |-> "huge", n |-> 5],
            [k |-> "top", n |-> 0], [k |-> "top", n |-> 1], [k |-> "top", n |-> 63]}
Few == {<<>>, <<Impl>>, <<IntLit(2)>>, <<IntLit(70), Impl>>}
Odd == {[Decl(Vs(a \o <<x>> \o b), "none", "none") EXCEPT !.vs[Len(a) + 1].data = f] :
            a, b \in Few, x \in OddLits \cup {Impl, IntLit(1)}, f \in BOOLEAN}
\* an implicit variant that steps over the edge
Over == {Decl(Vs(<<[k |-> "top", n |-> -1], Impl>>), r, "none") : r \in {"none", "array", "u8"}}
Tops == {Decl(Vs(<<[k |-> "top", n |-> -1]>>), "none", "none"),
         Decl(Vs(<<IntLit(0), [k |-> "top", n |-> -2], Impl>>), "none", "none")}

(* Options against the largest discriminant, at every boundary.              *)
Reprs == PrimReprs \cup {"none", "array"}
Sers == SerReprs \cup {"none"}
BadNames == Range(Conf.badnames)
Edge(m) == {<<IntLit(m)>>, <<IntLit(m), IntLit(0)>>, <<IntLit(IF m = 0 THEN 1 ELSE m - 1), Impl>>}
Options == {Decl(Vs(s), r, x) : s \in UNION {Edge(m) : m \in Range(Conf.edges)}, r \in Reprs, x \in Sers}
           \cup {Decl(<<>>, r, x) : r \in Reprs, x \in Sers}
BadOpts == {Decl(Vs(<<Impl, IntLit(3)>>), r, "none") : r \in BadNames}
           \cup {Decl(Vs(<<Impl, IntLit(3)>>), "none", r) : r \in BadNames \cup {"int"}}
           \cup {Decl(Vs(<<Impl>>), r, "none") : r \in {"list", "map"}}
Generic == {[Decl(Vs(s), r, "none") EXCEPT !.generic = TRUE] : s \in Few, r \in {"none", "u128", "array"}}

(* Options without values, singly and together, with and without one's own   *)
(* impls of the required traits; and items that are no enums.                *)
FlagSets == {f \in SUBSET (Flags \cup {"bogus"}) : "bogus" \in f => Cardinality(f) < 3}
Flagged == {[Decl(Vs(s), r, x) EXCEPT !.flags = f, !.supers = b] :
                s \in {<<Impl, IntLit(6)>>, <<IntLit(70), Impl, IntLit(1)>>}, r \in {"none", "u128", "array"},
                x \in {"none", "u128", "array", "map"}, f \in FlagSets, b \in BOOLEAN}
Items == {[Decl(<<>>, r, "none") EXCEPT !.item = i, !.flags = f] :
              i \in {"struct", "union"}, r \in {"none", "u8", "array"}, f \in {{}, {"no_ops"}}}

(* Declarations given one by one.                                            *)
Given == {[d EXCEPT !.flags = Range(d.flags)] : d \in Range(Conf.decls)}

GenDecls == UNION {CASE f = "num" -> Numberings [] f = "odd" -> Odd \cup Over
                     [] f = "top" -> Tops
                     [] f = "opt" -> Options [] f = "bad" -> BadOpts \cup Generic \cup Items
                     [] f = "flags" -> Flagged
                     [] f = "given" -> Given
                   : f \in Range(Conf.families)}

Line(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Emit == verdict' # "open" =>
    Line([d |-> input, accept |-> verdict' = "accept",
          nums |-> IF verdict' = "accept" THEN Numbered(input.vs) ELSE <<>>,
          conv |-> HasReprConversions(input), ops |-> HasOperators(input),
          kind |-> IF verdict' = "accept" /\ \A p \in used : p[1] = 0
                   THEN SerKind(SerOption(input), Discs(input)) ELSE "?"])
GNext == DNext /\ Emit
GSpec == DInit /\ [][GNext]_dvars /\ WF_dvars(GNext)
=============================================================================
