------------------------------ MODULE GenNames ------------------------------
(* How identifiers of generated code are chosen, and the schemas on which that is
   tried.  A schema is built by declaring types one after another, in namespaces,
   under names from a pool in which many names differ only in case, separators or
   by what generation appends; each declared type needs several identifiers, each
   namespace a module.  An identifier is the wanted one or, when its scope has that
   already or it is reserved, the first free one with underscores appended.

   Invariants: identifiers of one scope differ, none is reserved, and all are the
   wanted name up to underscores.  Complete behaviours are exported (PROG) and run
   through the generator.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS PoolSize, Kinds, Depth
(* << name, module form, type form >> *)
Words == <<<<"foo", "foo", "Foo">>,
          <<"Foo", "foo", "Foo">>,
          <<"FOO", "foo", "Foo">>,
          <<"foo_", "foo", "Foo">>,
          <<"fooRef", "foo_ref", "FooRef">>,
          <<"foo_ref", "foo_ref", "FooRef">>,
          <<"FooBuilder", "foo_builder", "FooBuilder">>,
          <<"FooRefBuilder", "foo_ref_builder", "FooRefBuilder">>,
          <<"self", "self", "Self">>,
          <<"mod", "mod", "Mod">>,
          <<"root", "root", "Root">>,
          <<"T0", "t0", "T0">>,
          <<"N", "n", "N">>,
          <<"T", "t", "T">>>>
Pool == {Words[k] : k \in 1..PoolSize}
Spaces == {<<>>} \cup {<<p[1]>> : p \in Pool}

VARIABLES decls,      \* << [k, ns, n] >>
          names       \* scope (namespace) -> identifiers in the order chosen: << [w: wanted, n: identifier, of] >>
vars == <<decls, names>>

Reserved == {"Self", "self", "super", "crate", "mod", "type", "root", ""}
Names(ns) == IF ns \in DOMAIN names THEN names[ns] ELSE <<>>
RECURSIVE Free(_, _)
Free(used, w) == IF w \in used \cup Reserved THEN Free(used, w \o "_") ELSE w
RECURSIVE Choose(_, _, _)
Choose(s, ws, k) ==      \* append identifiers for the wanted ws to the scope s
    IF k > Len(ws) THEN s
    ELSE Choose(Append(s, [w |-> ws[k][1], n |-> Free({s[j].n : j \in 1..Len(s)}, ws[k][1]), of |-> ws[k][2]]), ws, k + 1)
Wants(kind, c, d) ==
    CASE kind = "table" -> <<<<c, d>>, <<c \o "Ref", d>>, <<c \o "Builder", d>>>>
      [] kind = "union" -> <<<<c \o "Ref", d>>, <<c \o "Builder", d>>, <<c, d>>>>
      [] kind = "struct" -> <<<<c, d>>, <<c \o "Ref", d>>>>
      [] kind = "enum" -> <<<<c, d>>>>

(* modules are chosen before types: declare namespaces first *)
Init == decls = <<>> /\ names = [s \in {<<>>} |-> <<>>]
Entry(n) == CHOOSE p \in Pool : p[1] = n
OpenSpace(ns) ==
    /\ decls = <<>>
    /\ ns \notin DOMAIN names
    /\ Cardinality(DOMAIN names) <= 2
    /\ names' = [s \in DOMAIN names \cup {ns} |-> IF s = <<>> THEN Choose(names[s], <<<<Entry(ns[1])[2], 0>>>>, 1) ELSE IF s = ns THEN <<>> ELSE names[s]]
    /\ UNCHANGED decls
Declare(kind, ns, p) ==
    /\ Len(decls) < Depth
    /\ ns \in DOMAIN names
    /\ \A d \in 1..Len(decls) : <<decls[d].ns, decls[d].n>> # <<ns, p[1]>>
    /\ ns = <<>> => <<p[1]>> \notin DOMAIN names
    /\ decls' = Append(decls, [k |-> kind, ns |-> ns, n |-> p[1]])
    /\ names' = [names EXCEPT ![ns] = Choose(@, Wants(kind, p[3], Len(decls) + 1), 1)]
Next == \/ \E ns \in Spaces \ {<<>>} : OpenSpace(ns)
        \/ \E kind \in Kinds, ns \in DOMAIN names, p \in Pool : Declare(kind, ns, p)
Spec == Init /\ [][Next]_vars

RECURSIVE Stem(_)
Stem(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) = "_" THEN Stem(SubSeq(s, 1, Len(s) - 1)) ELSE s
Distinct == \A s \in DOMAIN names : \A a, b \in 1..Len(names[s]) : a < b => names[s][a].n # names[s][b].n
NotReserved == \A s \in DOMAIN names : \A a \in 1..Len(names[s]) : names[s][a].n \notin Reserved
Faithful == \A s \in DOMAIN names : \A a \in 1..Len(names[s]) : Stem(names[s][a].n) = Stem(names[s][a].w)
Export == Len(decls) = Depth => PrintT("PROG " \o ToJson([d |-> decls, s |-> DOMAIN names]))
=============================================================================
