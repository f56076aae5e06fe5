#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
FE = "TLA+ specification of the schema language (Lex, Parse, Literal, Schema): TLC translates each project and judges the recorded translation (trace validation)"
CHECKS = {
    "C06": ("TLA+ refinement (TLC) + replay of TLC-exported transitions into the real iterators",
            "model_checking",
            "TLC proves, for every vector length, chunk size and position within the bounds, that the operational slice-cutting layer and the abstract sequence layer agree; every exported abstract transition is then replayed exhaustively to a fixed depth on the real Vector and UnionVector for 12 element types. Assumes behaviour depends on length/size only through the small cases and usize::MAX."),
    "C04": ("TLA+ wire-format specification: TLC as the executable oracle over recorded reads of generated schemas and buffers (trace validation)",
            "model_checking",
            "Every read of the generated readers over valid, freely laid out, mutated, truncated and extended buffers of generated schemas is compared by TLC with the specification's reader: same value, or an error of the specified kind, type, accessor and position. Bounded by the generated schemas and buffers; panics are violations."),
    "C01": ("TLA+ wire-format specification: TLC judges recorded encode/decode round trips of generated schemas and values",
            "model_checking",
            "For generated schemas and boundary-heavy values written in several ways, TLC decodes the bytes with the specification's reader and requires the value that was asked for, and the same from the generated readers. Bounded by the generated schemas and values."),
    "C02": ("TLA+ wire-format specification: TLC walks every written buffer and checks well-formedness",
            "model_checking",
            "For every buffer written for generated schemas and values TLC walks the bytes: alignment, bounds, vtable shape, required terminators, no overlaps, declared offsets. Bounded by the generated schemas and values."),
    "C03": ("TLA+ model of the builder (TLC, exhaustive) + replay of its behaviours in all eight cache configurations, recorded runs judged by TLC",
            "model_checking",
            "TLC checks the operational builder model (alignment promise, caches, finish, clear) exhaustively to a depth; its behaviours and long scripted walks are replayed on the real builder compiled in each of the eight cache configurations; TLC decodes every recorded buffer: same content, sharing exactly when the cache is on. Bounded depth and alphabets."),
    "C05": ("TLA+ model of the builder (TLC, exhaustive) + replay of its behaviours on the real builder, recorded runs judged by TLC",
            "model_checking",
            "Behaviours of the builder model with clear, finish and a panicking write anywhere are replayed on the real builder; TLC requires every object to stay readable, earlier bytes to stay a suffix, finished buffers to be well-formed and everything after a clear to equal a new builder's run. Bounded depth and alphabets."),
    "C11": ("TLA+ schema-evolution relation and wire-format reader: TLC judges recorded cross-version reads",
            "model_checking",
            "Generated schema families (fields and variants added, deprecated, reordered by id) are compiled in every version; buffers of each version are read by every other and TLC requires what the evolution specification says. Bounded by the generated families."),
    "C07": (FE + "; the generated code's vtable offsets are judged by TLC too (WireCode)", "model_checking", "For generated schemas (explicit, permuted, missing, duplicate, out-of-range ids; unions taking two slots; deprecated fields) TLC computes the slots the specification prescribes and requires them of the recorded translation, and of the bytes that compiled generated code writes. Bounded by the generated schemas."),
    "C08": (FE + "; the generated code's struct bytes are judged by TLC too (WireCode)", "model_checking", "For generated schemas (nested structs, force_align on structs and fields, arrays) TLC computes size, alignment and member offsets and requires them of the recorded translation and of the bytes that compiled generated code writes. Bounded by the generated schemas."),
    "C09": (FE + "; the generated code's tags are judged by TLC too (WireCode)", "model_checking", "For generated enums and unions (every base type, bit_flags, explicit and implicit values at the limits) TLC computes values or the rejection and requires them of the recorded translation and of compiled generated code. Bounded by the generated schemas."),
    "C10": (FE + "; the generated code's absent/present behaviour is judged by TLC too (WireCode)", "model_checking", "For generated fields of every type, mode and default TLC computes the default and mode or the rejection and requires them of the recorded translation and of compiled generated code writing and reading. Bounded by the generated schemas."),
    "C12": (FE, "model_checking", "For generated projects of several files, namespaces and include graphs TLC resolves every type name with the specified search order and reachability and requires the same declaration, or the same rejection, of the recorded translation. Bounded by the generated projects."),
    "C16": (FE, "model_checking", "For generated declarations over every combination of type constructor, element type, container and attribute TLC decides representability and requires the same verdict of the recorded translation. Bounded by nesting depth."),
    "C20": (FE, "model_checking", "For generated literals (integers in every base at type limits, floats around rounding boundaries with exact rational arithmetic, strings with every escape) and doc comments TLC computes the meaning or the rejection and requires it of the recorded translation. Bounded by the generated literals."),
    "C13": ("TLA+ specification of tokens and grammar (Lex, Parse, Format): TLC judges recorded formatter runs", "model_checking", "For generated texts over the whole grammar (any layout, comments anywhere, malformed ones) TLC compares tokens, comments and the declarations they belong to before and after formatting, and requires idempotence, an unchanged meaning, and refusal of what does not parse. Bounded by the generated texts."),
    "C14": ("TLA+ model of naming (GenNames, exhaustive) + replay of its schemas: generated code judged by the TLA+ specification of what it declares (Generate, TLC) and by the Rust compiler", "model_checking", "TLC checks on every assignment of names within the bounds that the naming scheme keeps names apart, and exports the schemas; those, long random ones, every hazardous name in every slot, and type combinations are generated twice with the real code, and TLC requires the same text and exactly the declared types, fields and variants in it; the Rust compiler must accept it together with code that uses all of it. Bounded names and schemas; compilation is sampled in the quick check.", ),
    "C18": ("TLA+ model of initialisation cursors (TLC, exhaustive) + replay of its behaviours on the real cursors, recorded runs judged by TLC", "model_checking", "TLC checks ownership, completeness and stability for every program over cursors within the bounds; every exported behaviour and long random ones are replayed on the real cursors for six element types, and the memory, drops and panics compared; splits that do not add up must not compile or run. Bounded lengths and program depth."),
    "C15": ("TLA+ specification of what a buffer contains (Inspect): TLC judges the recorded object maps of the inspection library", "model_checking", "For freely laid out buffers of generated schemas, also written with newer and older versions, TLC derives every object, line, extent, name and value from the bytes and the schema and requires them of the recorded object map, and of the interpretations of every byte. Bounded by the generated buffers."),
    "C19": ("TLA+ model of the inspector (TLC, exhaustive) + replay of its behaviours in the real inspector, recorded keys and screens judged by TLC", "model_checking", "TLC checks consistency, history and dialogs of the inspector model for every session within the bounds; all its states are replayed on the real inspector, with long random sessions and terminals of every small size; TLC requires every recorded step to be one of the model and every rendered row to be the specified text. Bounded sessions and buffers."),
    "C17": ("TLA+ model of the command line tool and its files (TLC, exhaustive) + replay of its histories with the real binary, recorded runs judged by TLC with the schema specification as verdict", "model_checking", "TLC checks agreement of the commands and harmlessness of failures for every history of commands and edits within the bounds; exported histories, and every command on generated, mutated and odd files, are run with the real binary in scratch directories, with working, failing, missing and killed formatters; TLC requires exit code, diagnostics and every file to be as specified. Bounded histories and inputs."),
    "C21": ("TLA+ specification of the schema language and of the graph it has (Graph): TLC judges the recorded graphs (trace validation)", "model_checking", "For generated projects (ids, structs, enums, defaults, namespaces, types, texts with every character that matters) the text is parsed as DOT and TLC requires exactly the nodes, rows, cells and edges the specification derives from the bytes of the project; every graph is generated twice. Bounded by the generated projects."),
    "C22": ("TLA+ specification of comparison (Values): TLC judges recorded comparisons, hashes, copies and conversions of values of compiled generated types", "model_checking", "For generated schemas and pairs of values that differ in few places (with NaN, zeros, absent parts) TLC computes equality and order and which types are totally ordered, and requires them of owned values and of views read in place, of clones and serde round trips, and of enum conversions (exhaustively for 8-bit enums). Bounded by the generated schemas and values."),
    "C23": ("TLA+ specification of the schema language with forgiveness as a transformation of parsed files (Schema!Forgive): TLC judges recorded translations with options (trace validation)", "model_checking", "Generated projects with comments and attributes of every kind in every place, and mutants of them, are translated with the four combinations of the options; TLC derives what the project means without what is forgiven and requires verdict, diagnostics and declarations. The program is run with the options on a sample. Bounded by the generated projects."),
    "C24": ("TLA+ model of the viewer and its terminal (Viewer, TLC exhaustive) + replay of its sessions with the real binary in a pseudo terminal, recorded runs judged by TLC with the schema specification as verdict", "model_checking", "TLC checks verdict and restoration of the terminal for every request and short session of the model; the sessions, and long random ones, are run in a pseudo terminal, whose cells after every key and change of size must be those the inspector (judged by C19) draws in that state; TLC requires verdict, proposals, terminal modes and screens to be as specified. Bounded sessions; printable ASCII."),
}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        cmd = "python3 bin/%s.py" % i.lower()
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l, "level_note": n})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; harness crates in harness/ bind them to the code of /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
