#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
GB = "cc_bindings_from_rs/generate_bindings/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- whole-system (generator) guarantees
p("C01", "Values cross the C++/Rust call boundary unchanged",
  "For every function or method that gets C++ bindings, each argument the C++ caller passes is the value the Rust callee receives, in the same position, and the value the Rust callee returns is the value the C++ caller gets, bit for bit. This holds for every supported parameter and return type - integers, floats, bool, char, raw pointers, references, function pointers, str and slice references, tuples, arrays, Option, Result, Vec, String, user structs, enums and unions - by value, by reference or as self, in any number and order. Writes made through a mutable reference or pointer on either side are seen by the other.",
  ["programs", "inputs"], "every function signature over the supported types x every parameter position x boundary values of each type",
  "The unit tests compare generated text for single hand-written signatures; none of the stable tests executes a generated binding, and no test varies position, combination and boundary value together.",
  [GB + "generate_function.rs", GB + "generate_function_thunk.rs", GB + "format_type.rs", GB + "generate_template_specialization.rs", "support/rs_std", "support/bridge.h"],
  [("C++ wrapper and Rust thunk emit matching conversions for each parameter", GB + "generate_function.rs, generate_function_thunk.rs"),
   ("type formatting on both sides of the ABI", GB + "format_type.rs")],
  observe=["compiled and linked C++ program calling generated bindings"])
p("C02", "Owned Rust values are dropped exactly once however C++ handles them",
  "Whatever sequence of construction, copy, move, assignment, self-assignment, swap, pass-by-value, return and destruction C++ code performs on objects of a bound Rust type, every Rust value brought into existence is dropped exactly once, never used after its drop and never leaked. Copying runs Clone exactly once per copy, assignment leaves the target holding the source's value, moving leaves the source valid to destroy or assign to, and values are never bitwise duplicated unless the type is Copy.",
  ["histories", "programs"], "every operation sequence up to a depth over a pool of objects x every combination of Copy/Clone/Default/Drop a type may have, including types nested in other types, Option, Result, Vec and tuples",
  "Existing tests check that special member functions are declared as expected; exactly-once destruction is a property of whole operation histories that no stable test executes.",
  [GB + "generate_struct_and_union.rs", GB + "generate_function.rs", "support/internal/slot.h", "support/internal/memswap.h", "support/rs_std/option.h", "support/rs_std/result.h"],
  [("special member function generation", GB + "generate_struct_and_union.rs"), ("by-value argument passing and return slots", GB + "generate_function.rs, support/internal/slot.h")],
  observe=["live-object ledger kept by the Rust type"])
p("C03", "C++ and Rust agree on the layout of every bound type",
  "For every struct, tuple struct, union and enum that gets C++ bindings, the C++ class has the size and alignment of the Rust type, and every field that is exposed in C++ has the Rust field's offset and type, so that a value written field by field on one side is read as the same value on the other. Private fields and the fields of types whose layout C++ cannot express are not exposed, and padding or reserved storage never overlaps an exposed field.",
  ["programs"], "every type built from up to a bounded number of fields over all size/alignment classes, visibilities and representation attributes",
  "Layout tests cover a few fixed structs; agreement must hold for every field combination and representation attribute, and it is normally only checked by downstream compiles.",
  [GB + "generate_struct_and_union.rs", GB + "format_type.rs"], [("field layout, padding and static assertions", GB + "generate_struct_and_union.rs")],
  observe=["sizeof/alignof/offsetof in C++ vs size_of/align_of/offset_of in Rust; cross-language field reads and writes"])
p("C04", "Generated bindings always compile, whatever the order of items",
  "For every crate accepted by the Rust compiler, generation succeeds and the generated header compiles as a self-contained C++20 header and the generated Rust implementation compiles, whatever order the items are declared in, however they depend on each other (by value, by reference, through methods, aliases, modules or generics) and whatever mix of supported and unsupported items the crate contains. Every type is completely defined before a use that needs its definition, and including the header twice or from two translation units is harmless.",
  ["programs"], "every dependency graph on a bounded number of items x every declaration order x every module placement",
  "Tests compile a handful of fixed crates; ordering bugs depend on the shape of the dependency graph and on names that decide ties.",
  [GB + "lib.rs", "cc_bindings_from_rs/toposort.rs", "cc_bindings_from_rs/lib.rs"], [("topological ordering of generated definitions, forward declarations", GB + "lib.rs")])
p("C05", "Unsupported items are left out, reported, and harm nothing else",
  "A public item that cannot be bound never makes generation fail and never removes or changes the bindings of an item that does not depend on it: it is replaced by a comment naming the item and the reason, and it is listed in the error report when one is requested. Private items and items not reachable from outside the crate never get bindings, and an item explicitly required to be bound makes generation fail if it cannot be.",
  ["programs"], "every combination of supported and unsupported items, in every position (free function, method, field, variant, trait implementation, module, constant)",
  "Tests look at one unsupported item at a time; isolation is a statement about every mix and order of items.",
  [GB + "lib.rs", GB + "generate_struct_and_union.rs", "common/error_report.rs", "cc_bindings_from_rs/lib.rs"],
  [("per-item error capture and fallback comments", GB + "lib.rs"), ("error report collection", "common/error_report.rs")])
p("C06", "Generating twice gives identical output",
  "Running the generator again on the same crate with the same options gives byte-for-byte identical header, Rust implementation and error report, in any process, with any hash seed, output path or working directory, and for a crate whose independent items are merely reordered each item gets the same bindings. Optional outputs (error report, cross-reference metadata) do not change the other outputs.",
  ["programs", "configurations"], "every generated crate x repeated runs in different environments",
  "Each test runs the generator once; differences caused by hash iteration order or address order appear only across runs and on inputs with ties.",
  ["cc_bindings_from_rs/lib.rs", GB + "lib.rs", "cc_bindings_from_rs/toposort.rs", "common/error_report.rs"],
  [("stable orders for items, includes, errors", GB + "lib.rs, cc_bindings_from_rs/toposort.rs")])
p("C07", "Public Rust names map to the documented C++ names, without clashes",
  "Every bound item is reachable in C++ under the namespace path that mirrors its Rust module path inside the crate's configured namespace, under its own name or the name requested by an annotation, and re-exported or aliased items under each public name. Names that are reserved in C++ are escaped with a trailing underscore, or rejected with a report, consistently at definition and use; an item is never emitted under a name that makes the header invalid or under which another item is found.",
  ["programs"], "every reserved word and every item kind x module nesting x renaming, re-export and alias form",
  "Tests use a few keywords and one nesting; consistency must hold for each word in each position.",
  [GB + "lib.rs", "common/code_gen_utils.rs", GB + "query_compiler.rs", GB + "fully_qualified_name"],
  [("identifier escaping", "common/code_gen_utils.rs"), ("public path and alias resolution", GB + "lib.rs")])
p("C08", "Calls abort exactly when a mutable reference overlaps another reference",
  "A bound function taking references aborts before running the Rust body whenever the memory behind a mutable reference argument (including self and slices) overlaps the memory behind any other reference argument, and never aborts otherwise: disjoint, adjacent, empty and shared-shared overlapping arguments always go through. Memory means bytes, so references to zero-sized types never overlap anything; shared references to types with interior mutability, and references inside other values (options, fields, callables), are not checked.",
  ["inputs", "programs"], "every pair and triple of references over every relative placement of their byte ranges, each parameter order and mutability",
  "Five tests sample a few address patterns of the helper; the guarantee is about every relative placement and every parameter list the generator emits checks for.",
  ["support/internal/check_no_mutable_aliasing.h", "support/internal/check_no_mutable_aliasing.cc", GB + "generate_function.rs"],
  [("pairwise range overlap check", "support/internal/check_no_mutable_aliasing.h"), ("emission of the check per parameter", GB + "generate_function.rs")])
p("C09", "C++ capabilities of a bound type mirror its Rust traits",
  "A bound type is copyable, default constructible, movable, equality and order comparable, convertible, convertible to text or callable through an operator in C++ exactly when the corresponding Rust trait implementation exists and is usable, and each such C++ operation gives the result of the Rust trait method with the operands in the same order. Types without the trait do not get the operation, and trivial C++ operations are only used where the Rust operation is a bitwise copy or a no-op.",
  ["programs", "inputs"], "every subset of the supported traits on structs, enums and generic instantiations x small operand domains",
  "Tests check text for one trait at a time on one type.",
  [GB + "generate_struct_and_union.rs", GB + "lib.rs", GB + "generate_function.rs"], [("trait implementation queries and special member generation", GB + "generate_struct_and_union.rs")])
p("C10", "Constants have the Rust value and type in C++",
  "Every public constant (free, in a module, or written out in an inherent or trait implementation) of a supported type is available in C++ as a constant of the corresponding C++ type with exactly the Rust value, for every value of the type including extremes, negative values, special floating-point values and NUL characters in text. A constant that cannot be represented is reported and left out.",
  ["inputs", "programs"], "every primitive type x every boundary value x each place a constant may be declared",
  "Tests use one or two constants with ordinary values.",
  [GB + "lib.rs", GB + "generate_const.rs"], [("constant evaluation and literal formatting", GB + "lib.rs")])
p("C11", "Option and Result in C++ behave as the same Rust value",
  "A Rust Option or Result held in C++ reports the state and payload that Rust sees in the same memory, and every sequence of C++ operations on it (construction from value, none, ok or error, assignment, reset, emplace, swap, copy, move, conversion, access, destruction) leaves it in the state the operation documents, visible to Rust as a valid value, for every payload type including those with niches, drops and non-trivial moves.",
  ["histories", "inputs"], "every operation sequence up to a depth x payload types of each layout class (niche, tagged, multi-niche)",
  "No stable test runs these headers; state depends on the whole history and on which bit pattern encodes each state.",
  ["support/rs_std/option.h", "support/rs_std/result.h", GB + "generate_template_specialization.rs"],
  [("tag and niche access", GB + "generate_template_specialization.rs"), ("C++ operations", "support/rs_std/option.h, support/rs_std/result.h")])
p("C13", "Futures are polled, woken and dropped as Rust requires",
  "An async Rust function called from C++ yields a future whose every poll reaches the Rust future with a waker that wakes the C++ task passed to that poll; completion is reported exactly once together with the result, pending never touches the output slot, and the Rust future is dropped exactly once whatever interleaving of poll, move, clone of wakers, wake from any thread, and destruction occurs. Every waker clone is balanced by exactly one destroy or consuming wake.",
  ["histories", "schedules"], "every sequence up to a depth of poll, wake, waker clone/drop, move and destroy events with a Rust future of every behaviour",
  "One compile-level test exists; reference counting errors show only for specific event orders.",
  ["support/rs_std/dyn_erased_future.h", "support/rs_std/dyn_erased_future.rs", "support/rs_std/erased_future.rs", "support/rs_std/waker.h", "support/rs_std/waker.cc", "support/rs_std/cpp_waker.h", "support/rs_std/cpp_waker.cc", "support/rs_std/dyn_future.rs"],
  [("erased poll and waker vtable", "support/rs_std/dyn_erased_future.rs, dyn_future.rs"), ("moved-from state", "support/rs_std/dyn_erased_future.h")])
p("C14", "Callables passed across languages are invoked and released faithfully",
  "A callable handed from one language to the other receives each call's arguments and returns each call's result unchanged, may be called as often as its kind allows, and its captured state is destroyed exactly once no matter which sequence of move, assignment, call, hand-over and destruction happens. A callable that was moved from, consumed or never set reports that it is empty.",
  ["histories"], "every operation sequence up to a depth over a pool of callables of each kind (shared, mutable, once), inline or heap state, in both directions",
  "Tests call each kind once.",
  ["support/rs_std/dyn_callable.h", "support/rs_std/dyn_callable.rs", GB + "lib.rs"], [("manager function and invoker pair", "support/rs_std/dyn_callable.h, dyn_callable.rs")])
p("C15", "A Rust panic never continues into the C++ caller",
  "When Rust code reached through a generated binding panics - in a function or method body, a constructor, Clone, Default, Drop, comparison or other trait operation, or while the result is being handed back - the process aborts before control returns to the C++ caller. No C++ statement after the call runs, no C++ handler catches the panic, and calls that do not panic are unaffected. (The documented exception: a `no_mangle` function that is declared `extern C-unwind` itself and needs no thunk.)",
  ["fault_sequences", "programs"], "every kind of generated entry point x every point at which its Rust side can panic",
  "No stable test runs a panicking binding.",
  [GB + "generate_function_thunk.rs", GB + "generate_function.rs"], [("thunks use a non-unwinding ABI", GB + "generate_function_thunk.rs")])

# ---------------------------------------------------------------- support library guarantees
p("C20", "C++ strings and characters given to Rust are always valid",
  "A C++ string view or byte sequence converts to a Rust string reference exactly when its bytes are valid UTF-8, and a code unit converts to a Rust character exactly when it is a Unicode scalar value; every accepted value has the same bytes or code point on the Rust side, and everything else is rejected without undefined behaviour. Comparison, length, iteration and views of the resulting objects agree with the underlying bytes.",
  ["inputs"], "all byte strings up to length 4 over representatives of every UTF-8 byte class, all single code units at class boundaries and the full 21-bit range",
  "Tests try a dozen strings; acceptance is a decision over all inputs.",
  ["support/rs_std/str_ref.h", "support/rs_std/char.h", "support/rs_std/char.cc"], [("UTF-8 decision", "support/rs_std/str_ref.h"), ("scalar value decision", "support/rs_std/char.h")])
p("C21", "Slice views expose exactly the elements Rust and C++ agree on",
  "A slice reference built from any C++ contiguous range, or received from Rust, has the same length and the same elements in the same order on both sides; indexing, iteration, sub-slicing, comparison and conversion to C++ views agree with an array model, and the empty slice is never represented by a pointer that Rust forbids. Iterator adapters visit every element exactly once and stop exactly at the end.",
  ["inputs", "histories"], "every slice length up to a bound x element type x every operation sequence up to a depth",
  "Tests sample a few lengths.",
  ["support/rs_std/slice_ref.h", "support/rs_std/iterator_adapter.h", "support/rs_std/int.h"], [("pointer/length representation", "support/rs_std/slice_ref.h"), ("end-of-iteration caching", "support/rs_std/iterator_adapter.h")])
p("C22", "Lossy formatting equals whole-string lossy decoding under any chunking",
  "Bytes written to the lossy formatter in any chunks, one at a time, as repeated fills or as slices, produce after a flush exactly the text that lossily decoding their concatenation produces. Reported counts equal the bytes actually consumed, an output error is reported without losing or duplicating text already accepted, and the formatter is usable afterwards as documented.",
  ["inputs", "histories", "fault_sequences"], "all byte sequences up to a length over every UTF-8 byte class x every split into calls x every output failure point",
  "26 tests sample strings and splits; correctness concerns all splits of all sequences.",
  ["support/rs_std/lossy_formatter.rs", "support/rs_std/lossy_formatter_for_bindings.rs"], [("incomplete-sequence buffer", "support/rs_std/lossy_formatter.rs")])
p("C23", "In-place construction never leaks, double-drops or exposes partial objects",
  "When an object is constructed in place from initializers for its fields, elements or bases - whichever initializer fails or panics, in whatever nesting of combinators - every part already constructed is dropped exactly once, no part not constructed is dropped, and the destination holds a valid object exactly when construction reports success. Initializers run once each, in declaration order, and mapping, chaining, error-converting or cloning combinators preserve this.",
  ["fault_sequences", "programs"], "every initializer expression up to a nesting depth x every failing or panicking point, including panics in destructors run during cleanup",
  "Tests inject single failures into a few shapes; leaks and double drops appear only for particular failure points in particular nestings.",
  ["support/ctor.rs", "support/ctor_proc_macros.rs"], [("partial-construction drop guards", "support/ctor_proc_macros.rs, support/ctor.rs")])
p("C24", "Emplacement slots and reassignment track initialization exactly",
  "A slot that may hold a pinned object drops its content exactly once: after any sequence of fill, replace, clear, take, failed fill and scope exit the slot is full exactly when the last fill succeeded and was not cleared, and a failed fill leaves it empty. Reconstructing or assigning an existing object in place ends with exactly one live object at that location or ends the process, even when the old object's destructor or the new object's initializer panics.",
  ["histories", "fault_sequences"], "every operation sequence up to a depth x every failing or panicking step, including panicking destructors",
  "Tests walk one path through each operation with well-behaved destructors.",
  ["support/ctor.rs"], [("initialization flag", "support/ctor.rs Slot"), ("abort on unwind", "support/ctor.rs reconstruct")])
p("C25", "C++ relocation helpers move Rust values without copying or losing them",
  "A movable wrapper, storage slot or byte-wise swap used to relocate a Rust value ends every operation sequence with each live value in exactly one place, destroyed exactly once; a wrapper that was moved from is empty, reports it, and may be refilled, and a value taken out of a slot is the one put in. Neither self-move, move assignment over a live value, nor arrays of values break this.",
  ["histories"], "every sequence of construct, move, assign, swap, take, refill and destroy up to a depth over a pool of wrappers, for trivially and non-trivially movable types",
  "Tests exercise each operation once from one state.",
  ["support/movable.h", "support/internal/slot.h", "support/internal/memswap.h", "support/internal/move_assign.h"], [("engaged flag and relocation", "support/movable.h"), ("uninitialized storage", "support/internal/slot.h")])
p("C26", "Composable bridging encodes and decodes every value identically",
  "A value of any bridged type - integers, floats, bools, pointers, options, tuples, slices, boxes and user bridges, nested in any way - encoded in one language and decoded in the other gives the same value, with both sides using the same number of bytes and the same order, and owned payloads changing hands exactly once.",
  ["inputs", "programs"], "every nesting of bridge combinators up to a depth x representative values x both directions",
  "Tests cover two fixed nestings in one language.",
  ["support/bridge.h", "support/crubit_bridge_rust/src/bridge.rs"], [("encoder/decoder and size accounting", "support/bridge.h, support/crubit_bridge_rust/src/bridge.rs")])

# ---------------------------------------------------------------- generator infrastructure
p("C30", "Memoized queries return what direct evaluation would, once per key",
  "A memoized query returns the value its function computes for that database and those arguments, evaluating the function at most once per distinct key when queries do not depend on themselves, whatever the order in which queries are asked and however many databases exist. With cycle breaking enabled, queries that reach themselves get their documented default and no answer computed under an unfinished cycle is later served as final; without it, a cycle is reported rather than looping.",
  ["programs", "histories"], "every dependency graph on up to 4 queries x every order of top-level queries x several databases",
  "Ten tests use fixed graphs and one database each.",
  ["common/memoized.rs"], [("per-database tables and cycle stack", "common/memoized.rs")])
p("C31", "Ordering respects dependencies, is complete, and is stable",
  "For every dependency graph the sorter returns each node exactly once, either ordered or failed; an ordered node comes after everything it depends on, exactly the nodes on or downstream of a cycle fail, and among orders that satisfy the dependencies the result is the one the caller's preference picks, the same on every run.",
  ["inputs"], "all graphs on up to 4 nodes (5 in the thorough tier), self-loops and duplicate edges included x all preference orders including ties",
  "Seven tests use fixed graphs.",
  ["cc_bindings_from_rs/toposort.rs"], [("priority-driven Kahn sort", "cc_bindings_from_rs/toposort.rs")])
p("C32", "Printed token streams mean what was written",
  "Printing a generated token stream gives text that lexes back to the same identifiers, literals, delimiters, colons and punctuation characters in the same order (identifiers, literals and colons never merge with a neighbour; spacing between other punctuation characters is not promised), with comments, literal insertions, newlines and non-ASCII or quoted content carried through exactly, so that documentation text or a string literal can never end early, swallow following code or become code. Recorded source positions refer to the text they were recorded for.",
  ["inputs"], "all token sequences up to a length over an alphabet with one representative of each adjacency and marker class, and all comment/literal texts up to a length over the special characters",
  "26 tests cover hand-written streams; gluing of neighbouring tokens depends on each pair.",
  ["common/token_stream_printer.rs", GB + "lib.rs", "common/kythe_metadata.rs"], [("spacing decisions and marker expansion", "common/token_stream_printer.rs")])
p("C33", "Interned values are equal exactly when their contents are equal",
  "Within one interner two interned strings or slices compare, order and hash as equal exactly when their contents are equal, and each refers to its full content for the interner's life, whatever was interned before, including empty and prefix-sharing values.",
  ["histories"], "every sequence of interned values up to a length over a domain with empty, equal, prefix and multi-byte values",
  "Six tests intern a few non-empty values.",
  ["common/interner.rs"], [("pointer identity of arena allocations", "common/interner.rs")])
p("C34", "The error report counts each failure once under its true cause",
  "The error report has one entry per item that was processed, in an order that depends only on the items, and lists under it exactly the errors reported while it was the innermost open item, in order and each once: under the format string of the root cause with the full message, whatever context messages wrap it, with lists of errors reported element by element and unstable compiler identifiers removed. Categories given to an item accumulate, leaving a scope restores the enclosing one, misnested scopes are detected, and pending or fatal errors are never dropped silently.",
  ["histories"], "every sequence of scope, report and category events up to a depth over a small set of items, error shapes and categories",
  "Tests report one or two errors.",
  ["common/error_report.rs", "common/errors.rs", "common/arc_anyhow.rs"], [("aggregation by format string and item scope", "common/error_report.rs")])
p("C35", "Feature flags enable exactly what they name",
  "Parsing, combining, printing and storing feature sets is lossless for every set; aliases mean exactly the set they document, unknown names are rejected, and a crate's behaviour follows exactly the features in force for it: its own enables added to the defaults, minus its disables, whatever the order of the options.",
  ["configurations"], "every subset of features and every alias x each of default, per-crate and disabled settings",
  "Tests use one or two sets.",
  ["common/crubit_feature.rs", "cc_bindings_from_rs/cmdline.rs", "cc_bindings_from_rs/lib.rs"], [("name table and set operations", "common/crubit_feature.rs"), ("merge of defaults, enables and disables", "cc_bindings_from_rs/lib.rs")])
p("C36", "Format strings and identifiers are expanded and escaped unambiguously",
  "A format string is accepted exactly when its braces are balanced and name known variables, and expands to its literal text with doubled braces halved and each variable replaced verbatim (white space around a variable name is ignored). Escaping arbitrary symbol text into identifiers always yields a valid identifier and never maps two different inputs to the same output, and a C++ reserved word is never produced as an identifier.",
  ["inputs"], "all strings up to a length over an alphabet of special and ordinary characters; every reserved word",
  "Tests try about ten strings.",
  ["common/dyn_format.rs", "common/code_gen_utils.rs"], [("format parser", "common/dyn_format.rs"), ("escaping", "common/code_gen_utils.rs")])
p("C37", "Forward-declared and C++-reference types convert only when compatible",
  "Two types may be cast into one another exactly when they stand for the same C++ type (same declared name, same pointer or reference kind, compatible pinning, constness and lifetime), a cast keeps address, length and contents, and names that differ in any character are never interchangeable. Reference wrappers keep the address they were made from through every conversion.",
  ["programs"], "every ordered pair of types built from two names by up to two pointer, reference, pin, array, slice or Vec layers",
  "Tests check a few accepted casts; rejections cannot be listed one by one by hand.",
  ["support/forward_declare.rs", "support/forward_declare_proc_macros.rs", "support/cref.rs", "support/oops.rs"], [("type-level names", "support/forward_declare.rs"), ("reference wrappers", "support/cref.rs")])
p("C38", "Template instantiation requests are collected and named exactly",
  "Scanning Rust sources finds exactly the C++ template instantiations requested in them, wherever the request appears and however it is spaced, each once and in a stable order, and different requests never share a name; requesting an instantiation that is not in the configuration is an error and one that is there resolves to the configured type.",
  ["programs", "inputs"], "every placement of requests in source constructs x every spacing x every pair of requests up to a size",
  "Tests cover one file at a time with ordinary spacing.",
  ["rs_bindings_from_cc/collect_instantiations.rs", "support/cc_template/cc_template_impl.rs"], [("token tree walk and normalisation", "rs_bindings_from_cc/collect_instantiations.rs, support/cc_template/cc_template_impl.rs")])
p("C39", "Compiler entry points honour command line options exactly",
  "Each command line option affects exactly the outputs it documents: key-value options split at the first separator and reject empty parts, namespaces, headers, renames and feature settings apply to the named crate only, missing or malformed options are reported as errors, and outputs are written to the requested paths and only there.",
  ["configurations"], "every subset of options up to a size x boundary spellings of each value",
  "16 tests cover one option each.",
  ["cc_bindings_from_rs/cmdline.rs", "cc_bindings_from_rs/lib.rs", "cc_bindings_from_rs/run_compiler.rs"], [("option parsing", "cc_bindings_from_rs/cmdline.rs")])

# ---------------------------------------------------------------- not decidable here
p("C50", "C++ APIs bound into Rust keep their meaning",
  "For every C++ header the generator accepts, the generated Rust bindings call the named C++ entity with the same arguments and give back its result, with layouts, lifetimes and ownership as declared in C++.",
  ["programs"], "every C++ header",
  "Golden files cover fixed headers.", ["rs_bindings_from_cc"], [("importer and generator", "rs_bindings_from_cc")])
p("C51", "Nullability and lifetime analysis only reports and infers sound facts",
  "Every nullability diagnostic corresponds to a path on which a null pointer can be dereferenced, and every inferred nullability or lifetime annotation is consistent with all observed uses.",
  ["programs"], "every C++ function",
  "Tests cover fixed snippets.", ["nullability", "lifetime_analysis", "lifetime_annotations"], [("dataflow analyses", "nullability, lifetime_analysis")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
