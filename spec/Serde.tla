------------------------------- MODULE Serde --------------------------------
(* Serialized documents.  A document is what serde's data model sees:        *)
(*   [t |-> "int", w |-> 8|16|32|64|128, bits |-> ascending bits]            *)
(*   [t |-> "words", ws |-> sequence of ascending bits]                      *)
(*   [t |-> "list", vs |-> sequence of elements]                             *)
(*   [t |-> "map", es |-> sequence of <<element, BOOLEAN>>]                  *)
(*   [t |-> "bad"]   anything not of the expected shape                      *)
(* The format in force is decl.kind (EnumDecl!SerKind).                      *)
EXTENDS EnumSetSpec

SerPrim == {"u8", "u16", "u32", "u64", "u128"}
SerWidth(r) == CASE r = "u8" -> 8 [] r = "u16" -> 16 [] r = "u32" -> 32
                 [] r = "u64" -> 64 [] r = "u128" -> 128

(* The documents a set may serialize to: one for integers; the order of list *)
(* and map entries, entries mapped to false and trailing zero words are free.*)
IsDocOf(S, kind, doc) ==
    CASE kind \in SerPrim ->
            doc.t = "int" /\ doc.w = SerWidth(kind) /\ doc.bits = Asc(S)
      [] kind = "array" ->
            /\ doc.t = "words"
            /\ BitsOfWords([i \in DOMAIN doc.ws |-> Range(doc.ws[i])]) = S
            /\ \A i \in DOMAIN doc.ws : Fits(Range(doc.ws[i]), WordBits)
      [] kind = "list" ->
            doc.t = "list" /\ Range(doc.vs) = S /\ NoRepeats(doc.vs)
      [] kind = "map" ->
            /\ doc.t = "map"
            /\ {doc.es[i][1] : i \in {n \in DOMAIN doc.es : doc.es[n][2]}} = S
            /\ NoRepeats([i \in DOMAIN doc.es |-> doc.es[i][1]])

(* The canonical one, used to generate behaviours.                           *)
DocOf(S, kind, n) ==
    CASE kind \in SerPrim -> [t |-> "int", w |-> SerWidth(kind), bits |-> Asc(S)]
      [] kind = "array" -> [t |-> "words", ws |-> [i \in 1 .. n |-> Asc(Word(S, i - 1))]]
      [] kind = "list" -> [t |-> "list", vs |-> Asc(S)]
      [] kind = "map" -> [t |-> "map", es |-> [i \in 1 .. Cardinality(S) |->
                                                 <<Asc(S)[i], TRUE>>]]

(* What a document deserializes to: a set of bits, checked or masked.        *)
WellTyped(kind, doc) ==
    CASE kind \in SerPrim -> doc.t = "int" /\ Fits(Range(doc.bits), SerWidth(kind))
      [] kind = "array" -> doc.t = "words"
      [] kind = "list" -> doc.t = "list" /\ Range(doc.vs) \subseteq D
      [] kind = "map" -> doc.t = "map" /\ {doc.es[i][1] : i \in DOMAIN doc.es} \subseteq D
DocBits(doc) ==
    CASE doc.t = "int" -> Range(doc.bits)
      [] doc.t = "words" -> BitsOfWords([i \in DOMAIN doc.ws |-> Range(doc.ws[i])])
      [] doc.t = "list" -> Range(doc.vs)
      [] doc.t = "map" -> {doc.es[i][1] : i \in {n \in DOMAIN doc.es : doc.es[n][2]}}

(* Elements a map mentions both with true and with false: it is left open    *)
(* whether they are in the set.                                              *)
Contradicted(doc) ==
    IF doc.t # "map" THEN {}
    ELSE DocBits(doc) \cap {doc.es[i][1] : i \in {n \in DOMAIN doc.es : ~doc.es[n][2]}}

Serialize(a, doc) == IsDocOf(reg[a], decl.kind, doc) /\ Only(Ok(Unit))
Deserialize(d, doc) ==
    IF ~WellTyped(decl.kind, doc) THEN Only(Err)
    ELSE IF decl.deny /\ ~(DocBits(doc) \subseteq D) THEN Only(Err)
    ELSE \E F \in SUBSET Contradicted(doc) :
            Write(d, (DocBits(doc) \cap D) \ F, Ok(Unit))
(* A serializer or deserializer that reports an error: it is returned.       *)
Failed == [k |-> "failed", r |-> <<>>]
SerializeFailing(a, k, doc) == IF k = "failed" THEN Only(Failed) ELSE k = "ok" /\ Serialize(a, doc)
DeserializeFailing(d, doc, k) == IF k = "failed" THEN Only(Failed) ELSE Deserialize(d, doc)
(* Deserialization into an existing set: after an error some set is there.   *)
DeserializeInPlace(d, doc, k, S) ==
    IF k \in {"failed", "err"}
    THEN /\ S \subseteq D
         /\ k = "err" => \/ ~WellTyped(decl.kind, doc)
                         \/ decl.deny /\ ~(DocBits(doc) \subseteq D)
         /\ Write(d, S, [k |-> k, r |-> <<>>])
    ELSE Deserialize(d, doc)
(* Serialize and deserialize again through a format.                         *)
RoundTrip(d, a) == Write(d, reg[a], Ok(Unit))

(* Malformed input: an error or a set of variants, nothing else.             *)
DeserializeAny(d, S, ok) ==
    IF ok THEN S \subseteq D /\ Write(d, S, Ok(Unit)) ELSE Only(Err)
=============================================================================
