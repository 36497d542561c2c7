#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

IR, TS, GQ, CLI, WP = "src/graphql/ir.rs", "src/typescript.rs", "src/graphql.rs", "src/cli.rs", "src/worker_pool.rs"
SC, SF, SJ, VA = "src/graphql/schema.rs", "src/graphql/schema/field.rs", "src/graphql/schema/json.rs", "src/graphql/variable.rs"
DL, PI, TD = "pkg/npm/lib/download.js", "pkg/npm/lib/postinstall.js", "pkg/npm/lib/typed-documentnode.d.ts"

prop("C01", "Data types accept every response a conforming server can return",
     "For every schema and every valid operation or fragment (not using @include or @skip), every response that a spec-conforming GraphQL server can return for it is assignable to the data type that qlc emitted for that document. This covers aliases, nulls, lists of any nesting, interfaces, unions, inline fragments and imported fragments of any depth.",
     ["inputs", "programs"], "all schemas, all valid documents over them, all conforming responses (every runtime type choice, every null where nullable, empty and non-empty lists)",
     "The fixtures pin the text emitted for ~30 hand-written documents over one schema; none executes a document and no test relates the emitted type to a response.",
     [IR, TS, SF, SC], [("field collection per concrete possible type", IR), ("type rendering and merging of equal possible types", TS), ("list/null modifiers", SF)],
     ["the emitted .graphql.d.ts files", "responses executed by an independent GraphQL implementation over the same schema"])
prop("C02", "Data types are exact: no property, null, list level or type too many",
     "For every valid operation or fragment, the emitted data type has, for each concrete object type the selection can be on, exactly the selected response names as (readonly, unless disabled) properties, each with exactly the nullability at every list level, the list depth and the leaf type (TypeScript primitive, enum, custom scalar name, or the literal of __typename) that the schema declares for the selected field. No alternative of an emitted union admits an object that no possible type could produce.",
     ["inputs", "programs"], "all schemas, all valid documents, every field position and every concrete possible type",
     "Fixtures sample single list levels and a few unions; exactness over nestings of lists, covariant interface fields and merged possible types is a universal over schemas and documents.",
     [IR, TS, SF, "src/typescript/field.rs"], [("possible types grouped by what they select", TS), ("modifier builder", SF)],
     ["the emitted .graphql.d.ts files, parsed by the TypeScript compiler"])
prop("C03", "Variable types agree with what the server accepts",
     "For every operation with variables (of non-nested list types), the emitted variables type has exactly the declared variables as properties: a property is optional and nullable if and only if the variable's type is nullable, its list level and item nullability are those declared, and its leaf is the TypeScript primitive, enum, input object or custom scalar of the declared type. An operation without variables, and a fragment, gets no variables type.",
     ["inputs", "programs"], "all operations, all variable declarations whose type is a scalar, enum or input object under at most one list level, with and without default values",
     "A handful of fixtures declare a few variable types each.",
     [VA, TS], [("unwrapping of declared types", VA), ("variables type definition", TS)], ["the emitted .graphql.d.ts files"])
prop("C04", "The globals module defines exactly the enums and inputs that are used",
     "The globals module is written if and only if some compiled document uses an enum or input object, and it then defines exactly those used plus every enum and input object reachable through input object fields (which may be recursive), each once, with exactly the schema's enum values and input fields (optional and nullable if and only if nullable, every list level and item nullability as declared). Every document's module imports from it exactly the globals it uses itself.",
     ["inputs", "programs", "histories"], "all schemas with (mutually recursive) input objects and enums, all sets of documents in one run",
     "Fixtures have one or two documents and non-recursive inputs; the closure is over arbitrary graphs and its union over all files and threads.",
     [TS, GQ, WP], [("transitive closure over input objects", TS), ("aggregation of used globals over workers", WP), ("globals output path", GQ)],
     ["the globals module", "import statements of emitted modules"])
prop("C05", "Every emitted module is well-formed TypeScript that type-checks",
     "For every schema (with any descriptions, including ones containing comment delimiters) and valid documents, whose names are not reserved in TypeScript, all modules emitted by a run parse and type-check together under strict TypeScript: no undefined or duplicate identifier, no property declared twice, no description escaping its comment. The default export is a typed document over exported types of the same module.",
     ["inputs", "programs"], "all schemas and valid documents whose operation, fragment and type names are no reserved words of TypeScript (nor QueryDocumentNode and the like), all descriptions",
     "No test runs the TypeScript compiler on any output.",
     [TS, GQ], [("documentation comments", TS), ("imports of globals and document node types", TS)], ["all emitted files, given to tsc --strict"])
prop("C06", "Descriptions and deprecations are carried over to the right place",
     "Every description of a selected field, of a field of an emitted input object, and of an emitted enum appears as the documentation comment of that property or enum, with all its words in order (a property standing for fields of several types at once has that of one of them), and no other property carries it; and a property has an @deprecated tag if and only if the schema deprecates that field. Elements with neither have no documentation comment.",
     ["inputs", "programs"], "all schemas with (multi-line) descriptions and deprecations on any subset of elements, all documents",
     "One fixture has a documented field; placement over arbitrary nestings, aliases and merged types is not sampled.",
     [TS, SF, SC], [("compile_documentation", TS), ("description normalisation", SF)], ["JSDoc of emitted properties, parsed by the TypeScript compiler"])
prop("C07", "Every document in the tree is compiled exactly once, and nothing else is touched",
     "For every directory tree, thread count and schedule, a run compiles every regular file with extension .graphql under the root exactly once: it writes the module of each valid one next to it and reports each invalid one once. It creates and modifies no other file except the globals module, follows no symbolic links, and terminates.",
     ["schedules", "inputs", "configurations"], "all directory trees (depth, width, odd names, hidden directories, non-graphql and linked entries), all thread counts, all interleavings of the workers",
     "Tests run a few files with default scheduling; losing or duplicating work needs particular interleavings of the queue and of termination.",
     [WP, GQ], [("work queue with counted unfinished work", WP), ("directory traversal", WP)], ["file system before and after", "diagnostics", "worker event log"],
     "yield points and an event log in the worker pool", [("num_unfinished", "work queued or being run", WP)])
prop("C08", "Output is a deterministic function of the inputs",
     "Two runs on equal schemas, documents and options produce byte-identical files, the same set of diagnostics and the same exit status, whatever the thread count, the schedule, the per-process hash seeds, the order of directory entries, or the order in which the schema lists its types, fields, possible types and enum values. Re-running over existing outputs changes nothing.",
     ["schedules", "inputs", "configurations", "histories"], "all inputs, all thread counts, all schedules, all orderings of the schema JSON, repeated runs",
     "A fixture comparison is one run; hash-map iteration order and scheduling vary between processes.",
     [TS, IR, GQ, WP, CLI], [("sorting before emitting", TS), ("ordered maps", IR)], ["all emitted files", "stdout", "exit status"], "yield points in the worker pool")
prop("C09", "A module depends only on its document, its imports, the schema and options",
     "The module emitted for a document is the same when the document (with the files it transitively imports) is compiled alone and when it is compiled together with any other files, valid or not. Editing or breaking a file changes only the modules of files that transitively import it, and the globals module keeps, unchanged, all that the modules of the other files import from it.",
     ["inputs", "histories", "schedules"], "all sets of files, all subsets compiled together, all edits to a file outside the import closure",
     "Tests compile one document per fixture directory.",
     [GQ, WP, IR], [("per-file compile without shared mutable state", GQ)], ["emitted files of sub-runs"])
prop("C10", "Terminates without crashing on any input",
     "On every schema file, document tree, import graph (cyclic, self-referential, dangling, diamond-shaped) and option values, however malformed, and barring resource exhaustion (by thousands of threads, or exponentially branching fragments), the compiler terminates with a documented exit status (0, 1, or 2 for usage errors), never panicking, overflowing its stack, being killed by a signal or hanging; with status 0 it has written a module for every document.",
     ["inputs", "configurations"], "all byte strings as schema, config and documents; all import and spread graphs",
     "Tests contain a few well-formed error cases.",
     [GQ, IR, TS, SC, CLI], [("visited set of imports", GQ), ("active spreads", IR), ("recursive input object closure", TS)], ["exit status and stderr under watchdog"])
prop("C11", "Invalid documents and imports are never silently accepted",
     "A document that is unparsable, holds several definitions, selects an unknown field, omits or misplaces a selection set, spreads an unknown, unimported, cyclic or itself erroneous fragment, spreads on an unknown type, gives two different fields one response name, declares a variable of an unknown type, or imports a missing file, a non-fragment or two fragments of one name, makes the run print at least one error for that document and exit with 1, wherever in the document or its transitively spread fragments the mistake is. A valid document never gets an error, unless its selections are nested deeper than the compiler supports (50 levels in a document, 400 with its spreads).",
     ["inputs", "programs"], "all valid documents, and all single mutations of them in the listed classes at any position, including inside imported fragments",
     "A dozen fixtures each have one mistake at one position.",
     [IR, VA, GQ], [("error propagation from spreads", IR), ("import errors", GQ)], ["exit status and diagnostics"])
prop("C12", "Diagnostics point at the mistake and the summary counts them",
     "Each reported mistake in a document names that document's path and the line and column of the offending selection, spread, variable or import, shows exactly that source line, and names the offending identifier (and the type that lacks an unknown field); the suggestions for a misspelt field or spread include the intended name and only names that exist there; of any number of unknown fields and spreads each has its own diagnostic. Where all documents are valid, there is no error. The summary lines state exactly the numbers of errors and warnings printed, and the exit status is 1 if and only if there was an error.",
     ["inputs", "programs"], "all documents with a mistake of the locatable classes at any position, in any number of files",
     "Tests check whether some error occurred in a few fixed documents.",
     [CLI, IR, GQ, VA], [("LocationInformation", CLI), ("print_exit_info", CLI)], ["stdout and exit status"])
prop("C13", "Warnings are exactly the deprecated uses and dead spreads of the file itself",
     "With deprecation warnings enabled there is exactly one warning per selection of a deprecated field written in the compiled document itself, and none when disabled; there is one over-narrowing warning per spread (inline, or of an imported fragment, written in the document itself) whose type condition shares no possible type with its parent, and none otherwise. Warnings never change the emitted modules or the exit status.",
     ["inputs", "programs", "configurations"], "all valid or over-narrowing documents, all sets of deprecated fields",
     "Two fixtures sample one warning each.",
     [IR, CLI], [("push_warning", IR), ("ForeignFragmentJumpState", IR)], ["stdout, emitted files, exit status"])
prop("C14", "Imports resolve as documented and spreading equals inlining",
     "An import path resolves to the root directory when it starts with the configured prefix, to the importing file's directory when it starts with a dot, and to the root directory otherwise; imports are honoured transitively, among leading comments and blank lines, whatever their order, repetition or diamond shape. The module emitted for a document that spreads imported fragments describes the same types as for that document with every spread replaced by an inline fragment of the same type condition and selections.",
     ["inputs", "programs"], "all acyclic import trees across directories, all path spellings, all placements of spreads",
     "Fixtures import at most a few files from fixed places.",
     [GQ, IR], [("get_file_path_of_fragment", GQ), ("fragment spreads", IR)], ["emitted files compared up to property order and warnings"])
prop("C15", "Options mean the same from flags and config file, and flags win",
     "Every option given in the config file has the same effect as the equivalent command line flag; when both are given the flag wins; without either the documented default applies, and a schema path in the config file is relative to that file. Each option changes only what it is documented to change: the readonly modifiers, custom scalar names and prefix, module names in imports and globals file name, import prefix, warnings, threads, and colors of diagnostics, which only a terminal is sent.",
     ["configurations"], "all subsets and combinations of options and values from flags and config file, config file default or explicit",
     "Tests exercise options one at a time.",
     [CLI, GQ, TS], [("RuntimeConfig::from_cli", CLI)], ["emitted files, stdout and exit status of paired runs"])
prop("C16", "A malformed schema or config is reported and nothing is written",
     "If the schema file or the config file cannot be read, is not JSON, lacks required structure, or has a type of unknown kind, a complex type whose list of fields is missing or null, an enum whose list of values is, an interface or union whose list of possible types is, or a list or non-null type of nothing, the run prints an error, exits with 1 and writes no file at all.",
     ["inputs"], "all truncations and structural mutations of valid schema and config files",
     "Three or four fixed malformed files are tested.",
     [SC, SF, SJ, CLI], [("Schema::try_from_reader", SC), ("ConfigFileMatches::from_file_parse", CLI)], ["file system before and after, stdout, exit status"])
prop("C17", "I/O failures are reported, located and contained",
     "Whenever reading a directory, reading a document or import, or writing a module or the globals file fails, the run prints an error that names that path, exits with 1, and still emits exactly the same modules for all files not affected as a run without the failure. No failure is ignored and none aborts the run; short or interrupted reads and writes are none.",
     ["fault_sequences"], "every single failing open, read, write or directory read of a run, with several error codes, and combinations of them",
     "Tests only cover a missing import and a missing schema.",
     [GQ, WP, CLI], [("io error mapping", CLI), ("DirIoError", WP)], ["system calls failed by an injected library, stdout, files"])
prop("C18", "No undefined behaviour or data race in any execution",
     "Over all of its inputs and thread schedules, the compiler, including the libraries compiled into it, executes without undefined behaviour, data races, invalid memory accesses or leaked panics across threads.",
     ["schedules", "inputs"], "all inputs and interleavings",
     "Tests run uninstrumented.",
     [WP, GQ, IR], [("scoped threads and channels", WP)], ["Miri, ThreadSanitizer and AddressSanitizer reports"], "yield points in the worker pool")
prop("C19", "The schema download helper is complete-or-fail",
     "The schema download helper exits with 0 only after the entire body of a 200 response is in the output file, byte for byte, however the response is chunked, delayed or encoded; on a connection error, any other status, a response that ends early, a file that can not be written or a missing or unusable argument it exits non-zero, leaves no partial output file and says why. It sends one POST with a JSON introspection query to exactly the given URL.",
     ["inputs", "fault_sequences", "schedules"], "all response sizes, chunkings and delays, all status codes, all points at which the connection can break",
     "The npm package has no tests.",
     [DL, "pkg/npm/bin/qlc-download-schema"], [("download", DL)], ["requests and bytes at a local server, exit status and output file"])
prop("C20", "The installer never installs a binary that is not the checksummed one",
     "The installer leaves an executable binary and exits with 0 only if the downloaded archive's SHA-256 is the one recorded for this platform in the package; for any other bytes, a missing record, an HTTP error, a redirect to any of these, or a download that ends early or stalls, it exits non-zero, extracts nothing and leaves no archive behind. It downloads exactly the archive of its own version and platform, following redirects.",
     ["inputs", "fault_sequences", "configurations"], "all archive corruptions, truncation points, redirect chains, status codes, supported and unsupported platforms",
     "The npm package has no tests.",
     [PI, "pkg/npm/package.json"], [("checksum before untar", PI), ("getTarget", PI)], ["requests at a stand-in server, exit status, package directory"])
prop("C21", "A schema from the download helper compiles like the canonical introspection",
     "For every schema (lists nested up to three deep), compiling with the introspection result obtained by the download helper's query gives byte-identical modules, and the same warnings, as compiling with the canonical full introspection result of the same schema.",
     ["inputs", "programs"], "all schemas and documents",
     "The npm package has no tests, and the compiler's tests use another query's result.",
     [DL, SJ, SF], [("introspectionQuery", DL), ("json deserialisation", SJ)], ["emitted files and stdout of paired runs"])
prop("C22", "DataOf and VariablesOf recover a document's types",
     "For every emitted module, the reference DataOf type applied to its default export is identical to the document's data type, and VariablesOf is identical to its variables type (never when there are none), for queries, mutations, subscriptions and fragments alike. A generic function that takes a document of this kind infers these types from it, and the document can be used as a DocumentNode of the graphql package. The same holds for the reference document node types over any data and variables types.",
     ["programs", "inputs"], "all documents of all kinds, with any data and variables types",
     "The npm package has no tests.",
     [TD, TS], [("conditional types", TD)], ["the TypeScript checker's verdict on type equality"])
prop("C23", "Each module exports the document's types under their documented names",
     "Each emitted module declares its default export as the document node type of the document's kind (query, mutation, subscription of a schema that has subscriptions, fragment) from the configured module, over the data type exported under the document's name (or the kind's name for an unnamed operation) and its variables type named <Name>Variables or never. Nested selections are exported under the path of response names joined by underscores, as in the README, where an alternative of a union adds its type's name, or $$other for those that are alike; where the names of different selections would be the same, all but one of them end in further $ signs; nothing else is exported.",
     ["programs", "configurations"], "all documents of all kinds, named and unnamed, all module name options",
     "A few fixtures pin one example per kind.",
     [TS, IR], [("compile_ir", TS), ("build_from_operation", IR)], ["exports and imports of emitted modules, parsed by the TypeScript compiler"])
prop("C24", "A release's npm package installs exactly the binaries of that release",
     "For every version number, running the release scripts over built binaries of all supported platforms yields, whatever archives of other versions lie in the directory, one archive per platform holding exactly that platform's binary and an npm package whose version and checksums are those of the archives, so that the package's installer run against them installs, on each supported platform, byte for byte that platform's binary. Pre-release versions are published under their own tag only, and nothing is published if a binary or checksum is missing.",
     ["inputs", "configurations"], "all versions (release, alpha, beta), all four platforms, all binary contents",
     "The release scripts have no tests and run only in CI with credentials.",
     [".circleci/bin/make-github-release.sh", ".circleci/bin/make-npm-release.sh", ".circleci/bin/get-release-platforms.sh", "pkg/npm/package.json", PI],
     [("checksum substitution", ".circleci/bin/make-npm-release.sh"), ("archives", ".circleci/bin/make-github-release.sh")], ["recorded calls of stand-ins for ghr, yarn and the network, and the installed file"])
prop("C25", "The installed npm package works as documented",
     "However and wherever npm installs the package (for an application or globally, below any path or symlink), its command qlc is the installed binary with arguments, input, working directory and exit status passed through, requiring or importing @notarize/qlc-cli gives the absolute path of that binary, as its type declaration says, and qlc-download-schema writes a schema with which the command compiles valid documents. TypeScript resolves @notarize/qlc-cli/typed-documentnode from the emitted modules, and an application which imports its documents type-checks.",
     ["configurations", "inputs"], "all locations and ways of installing, all arguments, all module resolutions that honour package exports, all valid documents",
     "The npm package has no tests, and the compiler's tests never use it through the package.",
     ["pkg/npm/package.json", "pkg/npm/lib/index.js", "pkg/npm/lib/index.d.ts", "pkg/npm/lib/typed-documentnode.js", TD, "pkg/npm/bin/qlc-download-schema", PI, DL],
     [("path of the binary", "pkg/npm/lib/index.js"), ("exports and bin", "pkg/npm/package.json")], ["exit status and output of the commands, what Node resolves, the TypeScript compiler's verdict"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
