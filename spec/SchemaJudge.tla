---------------------------- MODULE SchemaJudge ----------------------------
(* Judges what the front end of planus did with a project: rejected exactly when
   the project has no meaning (Schema!Meaning), with an error diagnostic in one of
   its files, and otherwise yielding exactly the declarations it means.
   A record is [files, main, obs]; obs is [ok, panic, errors, at, d, ns]:
     errors  number of error diagnostics,
     at      their places << file number (0: none of the files), line, column >>
     d, ns   the declarations and namespaces returned (names as bytes, alignments
             as binary logarithms).                                            *)
EXTENDS Batch, Schema

Shown(t) == IF Len(t) = 3 THEN <<t[1], t[2]>>
            ELSE IF t[1] = "vec" THEN <<"vec", IF Len(t[2]) = 3 THEN <<t[2][1], t[2][2]>> ELSE t[2]>>
            ELSE t
(* two texts are the same line of documentation; the carriage return of a line
   that ends in CR LF may or may not be counted to the text                   *)
NoCr(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN Front(s, Len(s) - 1) ELSE s
SameDoc(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ NoCr(a[k]) = NoCr(b[k])
Count(s, x) == Cardinality({k \in 1..Len(s) : NoCr(s[k]) = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, NoCr(a[k])) = Count(b, NoCr(a[k]))

(* does the observed literal o denote m? *)
Denotes(m, o) ==
    CASE m[1] = "bool" -> o[1] = "bool" /\ o[2] = m[2]
      [] m[1] = "str" -> o[1] = "str" /\ o[2] = m[2]
      [] m[1] = "int" -> o[1] = "int" /\ o[2] = m[2] /\ o[3] = m[3]
      [] m[1] = "inf" -> o[1] = "float" /\ o[2] = m[2] /\ IsInf(o[3], m[2]) /\ Negative(o[3]) = m[3]
      [] m[1] = "nan" -> o[1] = "float" /\ o[2] = m[2] /\ IsNan(o[3], m[2])
      [] m[1] = "float" -> o[1] = "float" /\ o[2] = m[2] /\ Negative(o[3]) = m[3] /\ Rounded(m[4], o[3], m[2])
      [] m[1] = "enum" -> o[1] = "enum" /\ o[2] = m[2] /\ o[3] = m[3]
      [] m[1] = "vec" -> o[1] = "vec" /\ o[2] = <<>>
SameMode(m, o) == m[1] = o[1] /\ (m[1] = "def" => Denotes(m[2], o[2]))

Bit(n) == CHOOSE k \in 0..31 : 2^k = n      \* n a power of two
WhyTable(M, D, o) ==
    LET n == Len(D.d.b)
        s == SlotsOf(D).s
        F == M.F[D.f]
        why(j) ==
            LET f == D.d.b[j]
                g == o.f[j]
                z == FieldSize(M.E, M.L, D.t[j])
                al == IF Has(f.md, A_force_align) THEN ForcedLog(f.md) ELSE Bit(z.al)
            IN  IF g.n # f.n THEN "name"
                ELSE IF g.t # Shown(D.t[j]) THEN "type"
                ELSE IF g.slot # s[j] THEN "slot"
                ELSE IF g.dep # Has(f.md, A_deprecated) THEN "deprecated"
                ELSE IF ~SameMode(ModeOf(M.E, D.t[j], f).m, g.mode) THEN "default"
                ELSE IF g.size # z.sz \/ g.tag # z.tag THEN "size"
                ELSE IF g.align # al THEN "alignment"
                ELSE IF ~SameDoc(DocOf(F, f.tok), g.doc) THEN "doc"
                ELSE ""
        used == UNION {s[j]..(s[j] + W2(D.t[j]) - 1) : j \in 1..n}
    IN  IF o.k # "table" THEN <<"kind">>
        ELSE IF Len(o.f) # n THEN <<"number of fields">>
        ELSE IF \E j \in 1..n : why(j) # "" THEN LET j == CHOOSE j \in 1..n : why(j) # "" IN <<"field", j, why(j)>>
        ELSE IF o.vsize # 4 + 2 * Cardinality(used) THEN <<"vtable size">>
        ELSE <<>>
WhyStruct(M, D, L, o) ==
    LET n == Len(D.d.b)
        F == M.F[D.f]
        next(j) == IF j < n THEN L.off[j + 1] ELSE L.sz
        why(j) ==
            LET f == D.d.b[j]
                g == o.f[j]
            IN  IF g.n # f.n THEN "name"
                ELSE IF g.t # Shown(D.t[j]) THEN "type"
                ELSE IF g.off # L.off[j] THEN "offset"
                ELSE IF g.size # L.fsz[j] THEN "size"
                ELSE IF g.pad # next(j) - L.off[j] - L.fsz[j] THEN "padding"
                ELSE IF ~SameDoc(DocOf(F, f.tok), g.doc) THEN "doc"
                ELSE ""
    IN  IF o.k # "struct" THEN <<"kind">>
        ELSE IF Len(o.f) # n THEN <<"number of fields">>
        ELSE IF o.size # L.sz \/ o.align # Bit(L.al) THEN <<"size or alignment">>
        ELSE IF \E j \in 1..n : why(j) # "" THEN LET j == CHOOSE j \in 1..n : why(j) # "" IN <<"field", j, why(j)>>
        ELSE <<>>
WhyEnum(M, D, o) ==
    LET n == Len(D.d.b)
        F == M.F[D.f]
    IN  IF o.k # "enum" THEN <<"kind">>
        ELSE IF o.base # D.e.base THEN <<"integer type">>
        ELSE IF Len(o.v) # n THEN <<"number of variants">>
        ELSE IF \E j \in 1..n : o.v[j].n # D.d.b[j].n \/ o.v[j].v # D.e.v[j] \/ o.v[j].base # D.e.base THEN <<"variant">>
        ELSE IF \E j \in 1..n : ~SameDoc(DocOf(F, D.d.b[j].tok), o.v[j].doc) THEN <<"variant doc">>
        ELSE <<>>
WhyUnion(M, D, o) ==
    LET n == Len(D.d.b)
        F == M.F[D.f]
    IN  IF o.k # "union" THEN <<"kind">>
        ELSE IF Len(o.v) # n THEN <<"number of variants">>
        ELSE IF \E j \in 1..n : o.v[j].n # VariantName(D.d.b, j) THEN <<"variant name">>
        ELSE IF \E j \in 1..n : o.v[j].t # Shown(D.t[j]) THEN <<"variant type">>
        ELSE IF \E j \in 1..n : ~SameDoc(DocOf(F, D.d.b[j].tok), o.v[j].doc) THEN <<"variant doc">>
        ELSE <<>>
WhyDecl(M, k, os) ==
    LET D == M.E[k]
        h == {j \in 1..Len(os) : os[j].path = D.path}
    IN  IF Cardinality(h) # 1 THEN <<"declaration missing", D.path>>
        ELSE LET o == os[CHOOSE j \in h : TRUE]
                 w == CASE D.d.k = "table" -> WhyTable(M, D, o)
                        [] D.d.k = "struct" -> WhyStruct(M, D, M.L[k], o)
                        [] D.d.k = "enum" -> WhyEnum(M, D, o)
                        [] D.d.k = "union" -> WhyUnion(M, D, o)
             IN  IF w # <<>> THEN <<D.d.k, k>> \o w
                 ELSE IF ~SameDoc(DocOf(M.F[D.f], D.d.tok), o.doc) THEN <<D.d.k, k, "doc">>
                 ELSE IF o.ns # D.ns THEN <<D.d.k, k, "namespace">>
                 ELSE <<>>
RECURSIVE DocsOver(_, _, _)
DocsOver(M, k, ns) ==      \* inner docs of the loaded files from k on that are in namespace ns
    IF k > Len(M.F) THEN <<>>
    ELSE (IF k \in M.loaded /\ NamespaceOf(M.F[k].d) = ns THEN InnerDocs(M.F[k]) ELSE <<>>) \o DocsOver(M, k + 1, ns)
WhySpaces(M, os) ==
    LET need == {NamespaceOf(M.F[k].d) : k \in M.loaded}
        have == {os[j].path : j \in 1..Len(os)}
        why(o) ==
            IF ~SameBag(DocsOver(M, 1, o.path), o.doc) THEN "doc"
            ELSE IF {o.decls[j] : j \in 1..Len(o.decls)} # {<<D.path[Len(D.path)], D.path>> : D \in {M.E[k] : k \in {k \in 1..Len(M.E) : M.E[k].ns = o.path}}}
                 THEN "declarations"
            ELSE IF {o.children[j] : j \in 1..Len(o.children)} # {<<p[Len(p)], p>> : p \in {p \in have : p # <<>> /\ Front(p, Len(p) - 1) = o.path}}
                 THEN "children"
            ELSE ""
    IN  IF Cardinality(have) # Len(os) THEN <<"namespace twice">>
        ELSE IF ~((need \ {<<>>}) \subseteq have) \/ \E p \in have : p # <<>> /\ Front(p, Len(p) - 1) \notin have THEN <<"namespace missing">>
        ELSE IF \E j \in 1..Len(os) : why(os[j]) # "" THEN LET j == CHOOSE j \in 1..Len(os) : why(os[j]) # "" IN <<"namespace", os[j].path, why(os[j])>>
        ELSE <<>>

(* line and column of the byte number p of the text b *)
Line(b, p) == Cardinality({k \in 1..(p - 1) : b[k] = 10}) + 1
LineStart(b, p) == LET s == {k \in 1..(p - 1) : b[k] = 10} IN IF s = {} THEN 1 ELSE (CHOOSE k \in s : \A j \in s : j <= k) + 1
(* the position of a character counts characters, not bytes *)
Column(b, p) == Cardinality({k \in LineStart(b, p)..(p - 1) : b[k] \notin 128..191}) + 1

Why(r) ==
    LET o == r.obs
        M == Meaning(r)
        decls == {k \in 1..Len(M.E) : WhyDecl(M, k, o.d) # <<>>}
        located == {o.at[j] : j \in 1..Len(o.at)}
        bad(k) == M.F[k].why = {"malformed token"}
    IN  IF o.panic # "" THEN <<"crash", o.panic>>
        ELSE IF M.why # {} /\ o.ok THEN <<"accepted although", M.why>>
        ELSE IF M.why = {} /\ ~o.ok THEN <<"rejected although it is valid">>
        ELSE IF M.why # {} /\ o.errors = 0 THEN <<"rejected without a diagnostic", M.why>>
        ELSE IF M.why = {} /\ o.errors # 0 THEN <<"accepted with errors">>
        ELSE IF M.why # {}
        THEN IF M.why # {"not UTF-8"} /\ ~\E x \in located : x[1] # 0 THEN <<"no diagnostic points into the schema", M.why>>
             ELSE IF \E k \in M.loaded : bad(k) /\ \A x \in located : x[1] = k => x[2] # Line(r.files[k].b, M.F[k].at) \/ x[3] # Column(r.files[k].b, M.F[k].at)
             THEN <<"malformed token not reported where it is">>
             ELSE <<>>
        ELSE IF Len(o.d) # Len(M.E) THEN <<"number of declarations", Len(M.E), Len(o.d)>>
        ELSE IF decls # {} THEN WhyDecl(M, CHOOSE k \in decls : TRUE, o.d)
        ELSE WhySpaces(M, o.ns)

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
