CHECKS = {
    "C42": "copies.c42",
    "C33": "cost.c33",
    "C41": "errtext.c41",
    "C32": "roundtrip.c32",
    "C40": "deser.c40",
    "C34": "effects.c34",
    "C35": "effects.c35",
    "C36": "effects.c36",
    "C37": "defaults.c37",
    "C38": "debugging.c38",
    "C39": "threads.c39",
    "C26": "forge.c26",
    "C25": "declare.c25",
    "C24": "features.c24",
    "C17": "roundtrip.c17",
    "C28": "unsafety.c28",
    "C20": "reading.c20",
    "C03": "reading.c03",
    "C16": "varlen.c16",
    "C31": "names.c31",
    "C27": "subrec.c27",
    "C23": "conv.c23",
    "C22": "conv.c22",
    "C21": "words.c21",
    "C19": "cfgval.c19",
    "C18": "scale.c18",
    "C07": "buffers.c07",
    "C29": "parser.c29",
    "C05": "parser.c05",
    "C04": "parser.c04",
    "C02": "parser.c02",
    "C01": "parser.c01",
    "C06": "dual.c06",
    "C08": "accessors.c08",
    "C09": "packets.c09",
    "C12": "packets.c12",
    "C13": "packets.c13",
    "C10": "enums.c10",
    "C11": "enums.c11",
    "C30": "checksum.c30",
    "C14": "build.c14",
    "C15": "build.c15",
}
BASE = "static analysis: "
TECH = {
    "C42": BASE + "each clone and each equality interpreted on values with symbolic parts, variant by variant; a copy must be the value itself, an equality the conjunction of the parts' equalities (compared as reduced decision diagrams)",
    "C33": BASE + "static cost analysis: work charged to loop rounds and library calls, summarised inductively per loop and bounded on every path by the bytes consumed plus a constant set by the largest frame",
    "C41": BASE + "every Display body of the error types interpreted over an opaque formatter, the compiler's format templates decoded, labels and values compared with the error's parts",
    "C32": BASE + "forward rounding-error analysis (exact rational bounds on relative error) of the write and read expressions obtained by abstract interpretation",
    "C40": BASE + "the event sequence a Serialize body emits is recorded by abstract interpretation and replayed into the type's Deserialize body",
    "C34": BASE + "effect analysis over statics, types, locals and call targets of all bodies in four feature sets",
    "C35": BASE + "call graph reachability from every function available without the allocator, per instance, to allocating operations",
    "C36": BASE + "call graph over all instances and trait implementations, strongly connected components",
    "C37": BASE + "default constructors interpreted, values compared with the reviewed table of defaults",
    "C38": BASE + "every Debug body interpreted over an opaque formatter, names and values compared with the reviewed field list",
    "C39": BASE + "accepted and refused client witnesses compiled against the current crate",
    "C26": BASE + "privacy and signature lint over the type-checked program (which reachable functions yield views, from what inputs), plus compile-fail client witnesses with accepted twins",
    "C25": BASE + "compile-fail witnesses enumerated over declaration kinds, positions and values, each with an accepted twin, compiled inside a copy of the current crate",
    "C24": BASE + "the compiler's crate graph per feature set, and the decoding and building rules (abstract interpretation) re-applied to each feature set's typed MIR with obligation-by-obligation comparison",
    "C17": BASE + "composition of the builder's symbolic frame image with the packet's own validator and accessors; equality of the value read with the field's symbol decided per enumeration case in the relational domain",
    "C28": BASE + "whole-crate search of the typed MIR for unsafe operations, call-graph confinement, and abstract interpretation with an inferred class invariant for their bounds",
    "C20": BASE + "abstract interpretation of the generated serialisation code with the sequence of sink calls as the abstract output, compared with the declared fields",
    "C03": BASE + "interprocedural abstract interpretation of every accessor, rendering and iterator over the packet's validity conditions",
    "C16": BASE + "loop summarised by inferred invariant and closed form over an item list of any length; symbolic frame image compared with the documented one",
    "C31": BASE + "matching functions summarised over a generic packet type, logical equivalence; byte images of requests and rate settings",
    "C27": BASE + "induction over the records already yielded: abstract interpretation of next from the k-th state, entailment of record position and end",
    "C23": BASE + "path summary with chrono's constructors by contract; entailment of validity on success and of impossibility on failure",
    "C22": BASE + "each component reduced to a linear form over payload fields and compared with the documented fields and units",
    "C21": BASE + "words summarised over symbolic bytes; each component as a bit function of the word compared with the documented ranges",
    "C19": BASE + "symbolic byte image of each item's encoder composed with the decoder's path summary; inductive step of the list reader",
    "C18": BASE + "abstract interpretation of MIR with the float partitioned into finitely many intervals and special values; reciprocal factors compared with a reviewed table",
    "C07": BASE + "each buffer method interpreted abstractly from every state of its inferred class invariant and compared with the bounded-sequence contract",
    "C29": BASE + "entailment of the backlog bound on every ending path of the scanner",
    "C05": BASE + "ghost-position dataflow: every discarded stretch and every reported rejection must be justified by the path's facts",
    "C04": BASE + "ranking arguments for every loop of the scanner and progress entailment on every returned item",
    "C02": BASE + "reachability of panic edges in MIR under contracts whose preconditions are checked at each use",
    "C01": BASE + "path summary of the scanner over an arbitrary stream with ghost stream position; entailment of the frame conditions on every delivering path",
    "C06": BASE + "each operation of the two-part stream view interpreted abstractly from every well-formed state and compared with the one-sequence contract; class invariant by template refinement",
    "C08": BASE + "abstract interpretation of MIR with a byte-provenance domain, compared with a reviewed layout table",
    "C09": BASE + "abstract interpretation of each validate function, entailment of declared conditions on every path",
    "C12": BASE + "path summary of the dispatch function with abstract validation predicates, exhaustive over variants",
    "C13": BASE + "compiler-evaluated constants compared over all deliverable types",
    "C10": BASE + "decode, validity and encode functions tabulated from MIR path summaries and compared as finite relations",
    "C11": BASE + "MIR summaries of decode/encode functions over a symbolic word, bit-level equality",
    "C30": BASE + "loop summarisation to closed-form folds over byte sequences of any length, compared with the Fletcher sums",
    "C14": BASE + "byte-level symbolic evaluation of builder MIR compared with the documented frame image",
    "C15": BASE + "effect log of writer calls over all success and failure paths of the MIR, normal-form comparison with the array form",
}
NOTE = {
    "C42": "equality of strings and floats is the standard library's",
    "C33": "Amortised over a stream whose iterators are driven to their end. Library routines are charged by an assumed cost table (linear in the lengths handed over unless known constant); the step from per-round bounds to the total is on paper.",
    "C41": "core::fmt is trusted.",
    "C32": "Underflow to subnormal floats is far below every field's unit and not modelled.",
    "C40": "one known finding (CfgItfmAntennaSettings)",
    "C34": "Dependencies other than the named operations are trusted to be pure.",
    "C35": "Dependencies' functions are judged by crate: core cannot allocate.",
    "C36": "Calls through the client's own trait implementations are not the library's.",
    "C37": "Fields of builders with raw representations.",
    "C38": "core::fmt is trusted.",
    "C39": "Client-supplied buffers and writers are the client's business.",
    "C26": "Lifetimes are enforced by the compiler for all safe code; that the crate's own unsafe code does not lengthen them is C28, that views are only built after validation is C09 and C12. Client witnesses are an enumeration.",
    "C25": "The rejected classes are sampled by enumeration (types, positions, lengths, values, macro kinds), not proved for all declarations; that the accepted declarations of the crate itself are consistent is C09, C13 and C14.",
    "C24": "Five feature sets (none, serde, alloc, default, all). Link check is the compiler's own list of linked crates for a host target; no bare-metal target is installed.",
    "C17": "Fields a packet declares in both directions. Saturating conversions by contract (C18): a scaled field is shown to pass through one integer with reciprocal factors, the rounding of that product is C32. CFG-ITFM components are taken within their documented widths.",
    "C28": "All bodies in four feature sets; macro templates by token search.",
    "C20": "Every path of every serialisation function; serde sinks opaque.",
    "C03": "No path to a panic; packet validity conditions from C09; core::fmt, serde sinks opaque.",
    "C16": "Payloads up to the 16-bit length field; item encoding by contract (C19), checksum by contract (C30).",
    "C31": "Class and id constants themselves are C12.",
    "C27": "Payloads meeting the documented conditions (C09).",
    "C23": "chrono 0.4 contracts are trusted.",
    "C22": "Floating rounding aside (exact real coefficients to 1e-9).",
    "C21": "Known findings: character-length and parity codes the crate does not implement.",
    "C19": "Value codes and keys are a reviewed table.",
    "C18": "Exact over the real line for round(field*reciprocal); floating rounding of the product itself is C32.",
    "C07": "Vec's own operations are std's (modelled).",
    "C29": "Bound is header + accepted payload ceiling + checksum.",
    "C05": "Over-long means more than the largest documented payload.",
    "C04": "Run time is C33.",
    "C02": "Includes the supplied buffers; allocation failure excepted.",
    "C01": "Stream view by contract (C06), checksum by contract (C30), dispatch by C12.",
    "C06": "Buffer behaviour by contract (C07).",
    "C08": "Every public accessor is decided for all payloads (value-level normal form equality). Trusts rustc's MIR, the interpreter and the reviewed reference table.",
    "C09": "All 59 validators, all payloads. Trusts rustc's MIR, the interpreter and the reviewed condition table.",
    "C12": "Trusts the reviewed class/id table; validation itself is C09.",
    "C13": "Documented maxima are a reviewed table.",
    "C10": "Trusts the reviewed code tables.",
    "C11": "Named bits are a reviewed table taken from the declarations and the protocol description.",
    "C30": "Any input length; composition of pieces follows from the update law.",
    "C14": "Checksum routine by contract (C30), saturating conversions by contract (C18).",
    "C15": "Writer is arbitrary.",
}
NA = {
}
