#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/bindgen/"

def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, technique=technique, note=note, na=na)

PROPS = [
P("C01", "Output is a function of the input: no hash-order, clock or address leaks",
  "Two runs over the same sources and configuration produce byte-identical bindings, symbol lists and dependency files. No emitted byte, item order or package choice depends on the iteration order of a randomly seeded hash table, on directory listing order, on time, process ids, random numbers or addresses.",
  ["inputs", "programs", "schedules"], "every crate, every configuration, every per-process hash seed",
  "a test run has one hash seed per process and small maps that rarely show a different order; only the source shows every place an unordered iteration can reach the output",
  [B+"ir/constant.rs", B+"ir/item.rs", B+"bindings.rs", B+"library.rs", B+"cargo/cargo.rs", B+"dependencies.rs"],
  [("insertion-ordered item maps", B+"ir/item.rs"), ("sorted dependency file", B+"bindings.rs:generate_depfile")],
  "MIR query: every call that iterates a hash container (or reads clock/pid/random/dir order) classified by what consumes it",
  "sound over resolved callees of the whole crate for std hash containers; order-insensitive consumers are an explicit table"),

P("C02", "Every type an exported item mentions is itself emitted, before its user",
  "For every function, static, constant and type that is emitted, each type it refers to at any depth (fields, arguments, returns, pointers, arrays, function pointers, generic arguments, alias targets, enum payloads, constant values) is looked up and, if known, emitted too. A type is placed in the output only after everything it depends on, and each at most once.",
  ["programs", "configurations"], "every program shape: all item kinds and all nestings of type constructors",
  "tests sample some nestings; a visitor that forgets one position only shows on an input using exactly that position",
  [B+"dependencies.rs", B+"library.rs", B+"ir/ty.rs", B+"ir/structure.rs", B+"ir/enumeration.rs", B+"ir/function.rs", B+"ir/typedef.rs", B+"ir/union.rs", B+"ir/constant.rs", B+"ir/global.rs"],
  [("dependency collection", B+"dependencies.rs:add"), ("per-kind traversal", B+"ir/*.rs:add_dependencies")],
  "interprocedural traversal-coverage dataflow on MIR (which field of which item kind reaches the collector, under which guards) plus order (insert before recursion, push after)",
  "complete over item kinds, fields and type constructors; guards on a visit are limited to a reviewed table"),

P("C03", "A renamed type is renamed at its declaration and at every reference",
  "Configured prefixes and rename tables are applied to the exported name of every emitted item and to every reference to it: fields, arguments, returns, alias targets, array lengths, generic arguments, enum payloads, statics and constant types and values. Generic parameter names are never renamed, and no item kind is left out.",
  ["programs", "configurations"], "every program, every prefix/rename configuration",
  "expectation files combine renaming with a handful of item kinds; each missed position needs its own input",
  [B+"library.rs:rename_items", B+"ir/*.rs:rename_for_config", B+"config.rs:rename"],
  [("rename pass", B+"library.rs"), ("name lookup", B+"config.rs")],
  "interprocedural traversal-coverage dataflow on MIR over the rename pass",
  "complete over item kinds, fields and type constructors"),

P("C04", "Every generic instantiation is collected, instantiated and its uses mangled",
  "When the target language has no templates, every use of a generic type with concrete arguments, at any depth of any non-generic function, static or type, leads to one concrete copy of that type, and every such use refers to the copy by its mangled name. No unmangled reference to a generic type and no generic definition is left in the output.",
  ["programs"], "every program using generics, all nestings",
  "tests sample particular nestings and item kinds (statics, for one, are never combined with generics)",
  [B+"monomorph.rs", B+"library.rs:instantiate_monomorphs", B+"ir/*.rs:add_monomorphs", B+"ir/*.rs:mangle_paths"],
  [("collection", B+"ir/ty.rs:add_monomorphs"), ("mangling", B+"ir/ty.rs:mangle_paths")],
  "interprocedural traversal-coverage dataflow on MIR over collection, insertion, filtering and mangling",
  "complete over item kinds, fields and type constructors"),

P("C05", "Instantiating a generic changes only its parameters",
  "A concrete instance of a generic type carries over everything the generic had: conditional-compilation guards, annotations, documentation, alignment and packing, representation, field order and names, constness, nullability and reference-ness of pointers, discriminants. Only occurrences of the generic parameters are replaced, and they are replaced at every depth.",
  ["programs"], "every generic item and every argument list",
  "each attribute that could be dropped needs a test that puts it on a generic and checks the instance",
  [B+"ir/structure.rs:specialize", B+"ir/enumeration.rs", B+"ir/union.rs", B+"ir/typedef.rs", B+"ir/opaque.rs", B+"ir/ty.rs:specialize", B+"ir/generic_path.rs"],
  [("specialisation", B+"ir/*.rs:specialize")],
  "field-preservation dataflow on MIR: each field of the rebuilt item must originate from the same field of the original, each type-bearing one through substitution",
  "decides provenance of every field of every rebuilt item; equality of values is by provenance"),

P("C06", "Standard-library wrapper types are simplified wherever they occur",
  "Types such as non-null pointers, optional references, boxes, cells, manually-dropped and zeroable wrappers are simplified to their C form at every position of every emitted item: fields, enum payloads, arguments, returns, statics, aliases, array elements and function-pointer signatures.",
  ["programs"], "every program, all nestings",
  "tests sample positions",
  [B+"library.rs:simplify_standard_types", B+"ir/ty.rs:simplify_standard_types"],
  [("simplification pass", B+"ir/ty.rs")],
  "interprocedural traversal-coverage dataflow on MIR over the simplification pass",
  "complete over item kinds, fields and type constructors"),

P("C07", "In C tag style every reference to a tagged type carries its tag keyword",
  "When C output declares structs, unions and enums by tag, every reference to such a type from a field, argument, return, static, alias or enum payload, at any depth, is resolved to the right tag kind. All item kinds take part both as declared types and as referring items.",
  ["programs", "configurations"], "every program, C with tag style",
  "only sampled positions are in the expectations",
  [B+"declarationtyperesolver.rs", B+"library.rs:resolve_declaration_types", B+"ir/ty.rs:resolve_declaration_types"],
  [("tag resolution pass", B+"library.rs")],
  "interprocedural traversal-coverage dataflow on MIR over tag collection and resolution",
  "complete over item kinds, fields and type constructors"),

P("C08", "Conditions of modules, dependencies and items combine and never leak",
  "Every loaded item, associated constant, field and enum variant records the conjunction of its own condition with the conditions of all enclosing modules and of the dependency it comes from. Entering a module or dependency pushes its condition and leaving it removes exactly that condition on every path, including error paths that continue.",
  ["programs", "histories"], "every nesting of modules, dependencies and items",
  "needs a program per (item kind, enclosing construct) pair",
  [B+"parser.rs", B+"ir/cfg.rs", B+"ir/structure.rs", B+"ir/enumeration.rs", B+"ir/union.rs", B+"ir/function.rs", B+"ir/global.rs", B+"ir/constant.rs", B+"ir/typedef.rs", B+"ir/opaque.rs"],
  [("condition stack", B+"parser.rs:cfg_stack"), ("combination", B+"ir/cfg.rs:append")],
  "typestate (push/pop balance) on MIR CFGs plus origin dataflow of every item's condition field",
  "all paths of the parser; every constructor of a condition-bearing item"),

P("C09", "Every item with a condition is emitted between its own #if and #endif",
  "The declaration or definition written for an item that carries a condition lies between the opening directive for that very condition and its closing directive, and nothing that belongs to another item falls inside; the same holds in C and C++ for a field's declaration and for every piece of text written for an enum variant (enumerator, body, union member, helper methods, switch cases). Each opening directive is followed by its closing one on every path, and without a condition no directive is written.",
  ["programs", "configurations"], "every item kind, every option combination",
  "option combinations times item kinds are not enumerable by tests",
  [B+"language_backend/clike.rs", B+"language_backend/cython.rs", B+"ir/cfg.rs", B+"ir/constant.rs", B+"ir/enumeration.rs"],
  [("guard emission", B+"ir/cfg.rs:ConditionWrite")],
  "typestate on MIR CFGs: opening/closing directive calls paired on the same condition value on all paths; emission points dominated by the opening",
  "intraprocedural all-paths pairing with origins of the condition; writer functions enumerated"),

P("C10", "Braces, indentation, namespaces and include guards always close",
  "Every opened brace, indentation level, namespace, extern \"C\" block, include guard and conditional directive in the output is closed exactly once, in the matching place and under the same configuration that opened it, for every combination of options and items.",
  ["programs", "configurations"], "every option combination and item list",
  "the product of options is not enumerable by tests",
  [B+"writer.rs", B+"language_backend/mod.rs", B+"language_backend/clike.rs", B+"language_backend/cython.rs", B+"ir/enumeration.rs"],
  [("writer nesting stack", B+"writer.rs")],
  "path-sensitive typestate over the writer's nesting operations on MIR (conditions correlated by the immutable configuration they read), per function: net effect zero on all paths; matching open/close conditions for header and footer",
  "balance of the tracked operations, not of text inside user-supplied strings"),

P("C11", "Reserved words of the target languages are never emitted as identifiers",
  "Every identifier taken from Rust source that is emitted as a field, argument, variant, function-pointer parameter or generic parameter name passes through the reserved-word escaping, after renaming. The reserved-word lookup recognises every word of its list.",
  ["programs"], "every identifier position, every keyword",
  "tests use a few keywords in a few positions; the lookup is a binary search whose correctness depends on the order of the whole list",
  [B+"reserved.rs", B+"ir/structure.rs", B+"ir/enumeration.rs", B+"ir/function.rs", B+"ir/ty.rs", B+"ir/union.rs", B+"ir/generic_path.rs"],
  [("escape", B+"reserved.rs")],
  "MIR dataflow: every name-carrying field of the item model stored by the rename pass flows through the escape; list extracted from the constant and checked sorted and complete",
  "provenance of emitted names and exactness of the table",
  na="not claimed: the current tree breaks it in places whose repair changes existing output (an enum variant is escaped before its rename rule and prefix are applied; union fields are not escaped), and the search list (sortedness, completeness) alone would not decide the statement"),

P("C12", "Only types with a defined C layout are given a definition",
  "A struct, union or enum whose representation is not guaranteed to match C is emitted only as an opaque (incomplete) type, never with fields. A packed or over-aligned type is emitted with a definition only if the configuration says how to spell that annotation, and the annotation is then written on every such definition.",
  ["programs", "configurations"], "every representation attribute combination",
  "representation attributes times item kinds times options",
  [B+"ir/repr.rs", B+"ir/structure.rs:load", B+"ir/union.rs:load", B+"ir/enumeration.rs:load", B+"parser.rs", B+"config.rs:ensure_safe_to_represent", B+"language_backend/clike.rs"],
  [("representation check", B+"ir/repr.rs"), ("fallback to opaque", B+"parser.rs")],
  "MIR dominance: construction of a definition is control-dependent on the accepting outcome of the representation check; failing outcome reaches the opaque constructor; decision table extracted by finite-domain propagation",
  "presence and polarity of the checks on every path; not numeric layout equality"),

P("C13", "Errors are never silently dropped",
  "A failure to read a source file, to parse it, to run cargo, to expand macros, to load a manifest or configuration, or to write any output ends in an error value returned to the caller, a panic, a non-zero exit or (only where generation deliberately continues) a logged diagnostic. No failing operation's result is discarded.",
  ["fault_sequences", "inputs"], "every fallible call in the crate, every failure",
  "fault injection at every call site is not in the test-suite",
  [B+"parser.rs", B+"builder.rs", B+"bindings.rs", B+"cargo/cargo.rs", B+"cargo/cargo_expand.rs", B+"cargo/cargo_metadata.rs", B+"writer.rs", "src/main.rs"],
  [("error propagation", B+"error.rs"), ("skip diagnostics", B+"utilities.rs, parser.rs")],
  "MIR error-flow analysis: for every call returning a Result, the error value must reach a return, an unwrap/expect, or a logging call on the error edge",
  "every call site in the crate whose callee returns a Result with a non-trivial error"),

P("C14", "An unchanged output file is not touched, and verification tells the truth",
  "Writing bindings to a path whose current content already equals the new bindings leaves the file unopened for writing and reports no change; in every other case the complete new bindings replace the file and a change is reported. The verify mode exits with a failure exactly when a change was reported, and generation errors exit with failure.",
  ["inputs", "histories"], "every previous file content",
  "tests do not run the write path against arbitrary earlier content",
  [B+"bindings.rs:write_to_file", "src/main.rs"],
  [("compare then write", B+"bindings.rs"), ("exit status", "src/main.rs")],
  "MIR control-dependence and dominance: file creation only on the absent-or-different edges, return value constant per edge, compared buffers' provenance",
  "the decision structure on all paths; file-system semantics trusted"),

P("C15", "A nested run inside macro expansion has no effects",
  "When generation is requested (through the builder) from a build script that is itself being run by the tool's macro expansion, it yields inert bindings: no source is parsed, no process started, and no bindings, dependency file or symbol file is created, truncated or written. Every expansion process the tool starts carries the marker that makes this so.",
  ["histories"], "every API entry that writes or spawns",
  "the nested situation never occurs in the tests",
  [B+"builder.rs", B+"bindings.rs", B+"cargo/cargo_expand.rs"],
  [("recursion marker", B+"builder.rs:generate, cargo_expand.rs:expand"), ("inert bindings", B+"bindings.rs:noop")],
  "MIR guard analysis: every file-creating or writing call reachable from the public methods of the bindings is control-dependent on the inert flag being false; marker set on every spawned expansion command before it runs",
  "all public entry points and all effectful callees by call graph"),

P("C16", "Configuration files are read strictly and completely",
  "Every table of the configuration rejects unknown keys, every documented key is accepted under its documented name and stored in its own option, a missing key takes the documented default, and every enumerated option accepts exactly the documented spellings, each meaning the documented value.",
  ["inputs", "configurations"], "every key of every table, every spelling of every enumerated value",
  "there are well over a hundred keys and spellings; tests use a fraction",
  [B+"config.rs", B+"rename.rs", B+"utilities.rs"],
  [("deserialisation", B+"config.rs")],
  "finite-domain propagation over MIR of the (expanded) deserialisers, string parsers and defaults: key/spelling/default tables extracted and compared with the documented tables",
  "exact tables; the toml and serde crates are trusted"),

P("C17", "Every configuration option has its effect on the code that honours it",
  "No configuration option is accepted and then ignored: each option's value is consulted by the generation code, and options that can be overridden per item are overridden by that item's annotation of the documented name and by no other. An annotation, when present, wins over the configuration value, also for rename rules. Texts the configuration supplies for the header and trailer are written whenever they are set; pointer and no-return attributes and deprecation notes are chosen as documented, and comments follow the documentation options.",
  ["configurations", "programs"], "every option and annotation",
  "tests cannot show that each of the options is consulted for every item kind",
  [B+"config.rs", B+"ir/annotation.rs", B+"language_backend/clike.rs", B+"ir/enumeration.rs", B+"ir/structure.rs"],
  [("annotation accessors", B+"config.rs")],
  "MIR reads-from analysis of option fields; annotation-over-option accessors and rename rules by constant propagation with the annotation present and absent; guard analysis of every write of a configured header or trailer text, presence of every item-level one; decision tables for declarator attributes, deprecation notes and comment styles",
  "each option read outside of its own plumbing; accessor structure exact"),

P("C18", "Command-line options override the configuration file, each its own setting",
  "Each command-line option that names a setting replaces that setting and nothing else, whether a single file or a crate is processed, and settings without a given option keep the configuration file's value. Every value the command line accepts is also accepted by the option's parser, and every declared option is consulted under the type it was declared with. Input, output, dependency-file, symbol-file, verify and verbosity options act as documented.",
  ["configurations", "inputs"], "every option, both input modes",
  "the tests drive a few of the options",
  ["src/main.rs"],
  [("override application", "src/main.rs:apply_config_overrides"), ("argument declarations", "src/main.rs:main")],
  "constant propagation over MIR under every single-option scenario, write sets of the loaded configuration with value origins; option declarations extracted from the builder chains; accepted spellings propagated through the value parsers",
  "exact table of option -> setting -> value; clap trusted"),

P("C19", "Each builder call changes exactly the setting it names",
  "Every configuration method of the library's builder stores its argument in the setting it documents and keeps everything else set before; methods taking a single entry of a list or map add it, methods taking a whole list set it. A builder configured through a configuration object uses that object entirely, and generation consumes every source, crate, lock file and setting given.",
  ["programs", "histories"], "every sequence of builder calls",
  "no test covers the builder's methods individually",
  [B+"builder.rs"],
  [("builder methods", B+"builder.rs")],
  "write-set analysis on MIR: the places each builder method writes, the origin of each written value, on every path; dataflow from the builder's settings into parsing and generation",
  "exact write sets of all builder methods; what the settings then do is decided by the other properties"),

P("C20", "File-system and process effects are confined to the documented ones",
  "The only files the tool creates or writes are the bindings, dependency file and symbol file it was asked for (with their parent directories) and a temporary build directory for clean expansion; the only processes it starts are cargo and rustc for metadata, host discovery and expansion. It never deletes, renames or changes permissions of files and never opens network connections.",
  ["programs", "configurations"], "every path through the crate",
  "absence of an effect on all paths is not testable",
  [B+"bindings.rs", B+"cargo/cargo_expand.rs", B+"cargo/cargo_metadata.rs", "src/main.rs"],
  [("effect sites", B+"bindings.rs, cargo/")],
  "who-may-call over the resolved call graph: effectful std APIs with their owners",
  "all direct calls resolved by the type checker; effects inside third-party crates trusted by an allow-list of crates"),

P("C21", "The dependency file names every input that was read",
  "Every source file read while parsing (including modules, path attributes and dependencies) and the configuration file is listed in the dependency file, after the header path, each with spaces escaped and in sorted order. No file is read by the parser without being recorded.",
  ["programs", "histories"], "every module/dependency structure",
  "one small crate per case in the tests",
  [B+"parser.rs", B+"bindings.rs:generate_depfile", B+"builder.rs"],
  [("source cache", B+"parser.rs:cache_src")],
  "MIR dominance and provenance: each successful file read in the parser is followed by an insertion of the same path into the cache that becomes the dependency list; the list's flow to the dependency file",
  "all file reads reachable from the parser"),

P("C22", "Line endings follow the configuration everywhere",
  "Every line break in the generated bindings is the configured line ending: all text of the generated bindings goes through the one writer that produces line breaks, and no generated text contains a literal line break of its own.",
  ["configurations", "programs"], "every emission site",
  "tests cover line endings on one input",
  [B+"writer.rs", B+"language_backend/clike.rs", B+"language_backend/cython.rs", B+"config.rs"],
  [("line breaking", B+"writer.rs:new_line")],
  "MIR query: string templates reaching the writer contain no CR/LF; the only newline source is the configured ending; sinks outside the writer enumerated",
  "templates and literals; user-supplied strings excluded"),

P("C23", "Only exported C-ABI functions and statics are bound, under their exported symbol",
  "A function or static of the crate appears in the bindings only if it is exported under an unmangled or explicit symbol name and, for functions, uses a C-compatible ABI; it is declared under exactly that symbol. The plain and the unsafe-wrapped spellings of the export attributes are treated alike for functions and statics, and items marked as ignored, test-only or never-exported stay out.",
  ["programs"], "every combination of ABI, attributes and item kind",
  "attribute combinations are sampled",
  [B+"parser.rs", B+"utilities.rs"],
  [("export detection", B+"utilities.rs:exported_name"), ("loading", B+"parser.rs")],
  "scenario tables by constant propagation over MIR of the item loaders: for every combination of ABI, attribute spelling, visibility and mark, which constructor is reachable and which symbol reaches it",
  "all construction sites; syn's attribute parsing trusted; link_name inside extern blocks is outside the property"),

P("C24", "Exclusion, item-type filters and export marks apply to every item kind",
  "An item named in the exclude list never appears, whatever its kind; an item kind left out of the item-type filter is never emitted; items annotated not to be exported are not declared in the bindings nor listed in the symbol file (an associated constant counts as part of its type).",
  ["programs", "configurations"], "every item kind and filter",
  "each (kind, filter) pair needs a test",
  [B+"library.rs", B+"language_backend/mod.rs", B+"bindings.rs"],
  [("filters", B+"library.rs:remove_excluded, get_items, generate")],
  "interprocedural dataflow and constant propagation on MIR: each item collection is filtered by the exclude list before use, gated by its own item type, and no declaration is live when the item's own export mark is off",
  "all item collections"),

P("C25", "Primitive types map to their fixed C and Cython spellings",
  "Each supported Rust primitive, C-typedef and libc name is recognised under its name and is always emitted as the same fixed C (or Cython) type of the same width and signedness; pointer-sized integers follow the size-type option. The mapping is total and one-to-one per kind and width, and platform includes cover every type used.",
  ["programs", "configurations"], "all primitive names and languages",
  "about fifty names times three languages",
  [B+"ir/ty.rs"],
  [("primitive tables", B+"ir/ty.rs:maybe, to_repr_c")],
  "finite-domain propagation over MIR: name -> primitive -> spelling tables extracted and compared with the documented table",
  "exact tables"),

P("C26", "Mangled names keep every component of the generic arguments",
  "The mangled name of an instantiated generic contains the base name and a contribution of every generic argument, in order, at every depth: pointer constness, function-pointer return and arguments, array element and length, constant values. Distinct separators are used for distinct structural positions unless underscores are configured away.",
  ["programs"], "every nesting of type constructors",
  "a handful of shapes are tested",
  [B+"mangle.rs"],
  [("mangler", B+"mangle.rs")],
  "traversal-coverage dataflow on MIR of the mangler plus extraction of the separator table",
  "necessary condition for collision-freedom (all components contribute); injectivity itself not claimed"),

P("C27", "The expansion command mirrors the configuration",
  "Macro expansion runs cargo on the right manifest and package with exactly the configured features, all-features, default-features and profile, and in a target directory that does not collide with a running build; a temporary target directory lives until the process has finished. An empty expansion is reported as an error with cargo's diagnostics.",
  ["configurations", "fault_sequences"], "every expansion configuration",
  "tests run one or two expansion configurations",
  [B+"cargo/cargo_expand.rs", B+"parser.rs", B+"cargo/cargo.rs"],
  [("command construction", B+"cargo/cargo_expand.rs:expand")],
  "guarded-effect extraction on MIR: each command argument with the option that controls it; provenance through the call chain from the configuration; drop-before-use check on the temporary directory",
  "exact argument/guard table; cargo's own behaviour trusted"),

P("C28", "Items left out are reported",
  "Whenever the parser skips an item it looked at because it is not supported, not exported or malformed, the skip is logged with the item's name; nothing that could have been bound disappears without a diagnostic.",
  ["programs"], "every item kind and every reason to skip",
  "log output is not tested",
  [B+"parser.rs", B+"utilities.rs"],
  [("diagnostics", B+"parser.rs")],
  "MIR path analysis: every path through an item loader either stores the item or passes a logging call",
  "all loader functions of the parser",
  na="not claimed: no check was built; whether a skipped item deserves a message is a judgement the code documents nowhere, so a sound static rule has no oracle; errors of loaders are decided by C13"),

P("C29", "Both back ends emit every kind of item and member",
  "Each output language has a rule for every item kind, literal, type constructor and member kind; an item that reaches the writer is written exactly once, in the order computed, together with its documentation when documentation is on. Nothing that was collected is dropped by the writer.",
  ["programs", "configurations"], "all item kinds, both back ends",
  "expectations sample combinations",
  [B+"language_backend/mod.rs", B+"language_backend/clike.rs", B+"language_backend/cython.rs"],
  [("dispatch", B+"language_backend/mod.rs")],
  "traversal-coverage dataflow on MIR over the back ends: each field of the output model reaches the writer; dispatch over item kinds total",
  "coverage and guards; not textual correctness",
  na="not claimed as one property: what reaches the writer is decided in parts by C10 (structure), C09 (guards), C23 (symbols) and C24 (filters); exactly-once emission of every member over both back ends was not built"),

P("C30", "Conditions are translated faithfully into preprocessor expressions",
  "A Rust condition made of names, values, not, all and any is emitted as a preprocessor expression with the same structure: negation as negation, all as conjunction, any as disjunction, every operand included, leaves by the configured define. A leaf without a configured define is reported, and dropping it never turns a condition into its opposite.",
  ["programs", "configurations"], "every condition tree and define table",
  "tests use a few trees",
  [B+"ir/cfg.rs"],
  [("condition translation", B+"ir/cfg.rs")],
  "finite-domain propagation over MIR of the loader and the writer of conditions: constructor/attribute-name and constructor/operator tables, recursion coverage over all operands",
  "structure of the translation; meaning of user-supplied defines not claimed"),

# ---- not applicable
P("N01", "Generated headers always compile in their language",
  "For every supported input and configuration, the generated header is accepted by a conforming C, C++ or Cython compiler.",
  ["programs", "configurations"], "every input", "the test-suite compiles its samples only",
  [B+"language_backend"], [("writers", B+"language_backend/clike.rs")],
  na="acceptance by an external compiler is a property of the produced text for each input; no static argument over the generator's source in reach bounds it (the structural necessary conditions are C02, C09, C10, C11)"),
P("N02", "Emitted types have the same size and alignment as the Rust types",
  "The layout a C compiler gives to an emitted type equals the layout rustc gives to the Rust type.",
  ["programs"], "every repr(C) type", "layout is only checked for the samples by compiling them",
  [B+"ir/repr.rs", B+"language_backend/clike.rs"], [("layout annotations", B+"config.rs")],
  na="numeric layout of arbitrary inputs as computed by two other compilers is outside what a static analysis of the generator can bound; the structural part is C12 and C25"),
P("N03", "Distinct instantiations never get the same mangled name",
  "Two different generic instantiations in one crate are emitted under different names.",
  ["programs"], "every pair of instantiations", "pairs are sampled",
  [B+"mangle.rs"], [("mangler", B+"mangle.rs")],
  na="injectivity over unbounded strings (user identifiers may contain the separators) is a property of values; it is false in corner cases by design; C26 decides the structural part"),
P("N04", "Generation terminates without panicking on every syntactically valid crate",
  "No input crate makes the tool loop forever or abort.",
  ["programs"], "every crate", "fuzzing is not part of the tests",
  [B+"parser.rs", B+"ir"], [("unwraps", B+"ir/*.rs")],
  na="panic-freedom and termination depend on run-time values (recursive generic instantiation is unbounded by design, documented unwraps report configuration errors); no sound static bound in reach"),
P("N05", "Line wrapping respects the configured line length",
  "A declaration is broken over several lines exactly when it would exceed the configured length.",
  ["configurations"], "every declaration and width", "widths are sampled",
  [B+"writer.rs"], [("measuring", B+"writer.rs")],
  na="compares run-time text widths; numeric"),
P("N06", "Case conversion of identifiers",
  "Rename rules convert every identifier to the documented case.",
  ["inputs"], "every identifier", "few identifiers are tested",
  [B+"rename.rs"], [("rules", B+"rename.rs")],
  na="string-valued function over unbounded inputs; only its rule-name table is static (in C16)"),
]

def main():
    claimed = set(open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()) if os.path.exists(os.path.join(ROOT, "tools", "claimed.txt")) else set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in claimed:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "static analysis: " + p["technique"],
                "level": "other", "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": p["na"] or "not decided yet: the check is under construction"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

if __name__ == "__main__":
    main()
