import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
R="schema/ridl/"
p("C01","RIDL type declarations are captured exactly",
 "Parsing a valid RIDL schema yields exactly the header values (name, version) and the aliases, enums and structs written in it: each type appears once with its kind, name and underlying type, and aliases, enums and structs each keep their written order. Every struct field appears once, in written order, with its name, type, optional flag and metadata entries (key and value, in written order); alias metadata is kept the same way. Nothing that was written is dropped, duplicated, renamed, moved to another definition or invented.",
 ["inputs"],"every valid RIDL schema: any number, mix, order and nesting of header lines, aliases, enums, structs, fields and metadata lines",
 "The tests parse a few fixed schemas and look at selected fields; the property quantifies over every combination and order of declarations, which only generation against an independent model reaches.",
 [R+"ridl.go",R+"struct_parser.go",R+"type_alias_parser.go",R+"definition_parser.go",R+"parser.go","schema/type.go"],
 [("AST collection and two-pass resolution",R+"ridl.go"),("struct/field/meta states",R+"struct_parser.go"),("alias states",R+"type_alias_parser.go")],["parsed schema value","its JSON form"])
p("C02","RIDL services and methods are captured exactly",
 "Parsing a valid RIDL schema yields exactly the services and methods written in it, in written order: every method has its name, its input and output arguments in order with name, type and optional flag, its input-stream and output-stream flags, its annotations with their values, and its list of declared errors in order. A method written in the one-struct short form is marked as such, with one input and one output of the named struct types, whose argument names are the struct names with the first letter lower-cased. Nothing leaks from one method or service to another.",
 ["inputs"],"every valid combination of services, methods, arguments, stream keywords, short form, annotations (several per line or one per line, quoted or bare values) and error lists",
 "The tests use one or two hand-written services; interactions between annotations, streams, optional arguments, short form and error lists over sequences of methods are not enumerated.",
 [R+"service_parser.go",R+"type_parser.go",R+"error_list_parser.go",R+"ridl.go","schema/service.go"],
 [("method state machine and annotation buffer",R+"service_parser.go"),("argument list",R+"type_parser.go"),("argument building, short form",R+"ridl.go")],["parsed schema value","its JSON form"])
p("C03","RIDL enum members get the right values",
 "Every enum member written in RIDL appears once, in written order, in its own enum, with its name and value: the explicit value when one is written (bare or quoted), otherwise the member's zero-based position for integer enums and the member's own name for string enums. The enum keeps its declared base type.",
 ["inputs"],"every enum: any base type, any number of members, any mix of explicit, quoted and defaulted values, any number of enums in a schema",
 "The tests check a handful of enums; mixes of explicit and implicit values at arbitrary positions across several enums are not covered.",
 [R+"enum_parser.go",R+"ridl.go"],[("enum states",R+"enum_parser.go"),("default values",R+"ridl.go")],["parsed schema value"])
p("C04","RIDL error declarations are captured exactly",
 "Every error declared in RIDL appears once, in written order, with exactly the written code, name and message and the written HTTP status, or status 400 when none is written. A code or status that is not a representable decimal number is rejected rather than altered.",
 ["inputs"],"every list of error declarations: any positive code, any message text (bare word or quoted), any HTTP status 400-599 or none",
 "The tests use a fixed list of small codes and plain ASCII messages.",
 [R+"error_parser.go",R+"ridl.go",R+"parser_util.go","schema/error.go"],[("error states",R+"error_parser.go"),("conversion and default status",R+"ridl.go")],["parsed schema value"])
p("C05","Doc comments attach to the right definition and nowhere else",
 "In RIDL, the comment lines directly above a struct, alias, struct field, enum member, service or method (above its annotations, if any), followed by the comment on its own line, become that definition's documentation, one entry per comment line, in order, with only runs of blanks normalised. Lines starting with '#!' are left out. A comment never appears on any other definition and a '#' inside a quoted value is never a comment.",
 ["inputs"],"every placement of comment lines and trailing comments over every sequence of definitions, with arbitrary comment text",
 "The tests check a few fixed placements; which definition a comment ends up with depends on neighbouring lines, so the interactions grow with every combination of definitions.",
 [R+"tokenizer.go",R+"parser.go",R+"service_parser.go",R+"struct_parser.go",R+"enum_parser.go"],[("line-to-comment map","schema/ridl/tokenizer.go"),("upward comment collection",R+"parser.go")],["comments in the parsed schema and its JSON form"])
p("C06","RIDL layout does not change the meaning",
 "Two RIDL texts that differ only in layout - indentation, amount of blanks or tabs between tokens, blank lines, LF or CRLF line ends, a missing final newline, comments, or quotes around a plain value - parse to the same schema apart from documentation comments, or are both rejected.",
 ["inputs"],"every valid schema and every pair of layouts of it",
 "Each test has one layout; the layouts of a schema are unbounded and faults show only in combinations (last line, CRLF after a value, comment after an annotation...).",
 [R+"lexer.go",R+"tokenizer.go",R+"parser.go"],[("whitespace and newline tokens",R+"lexer.go"),("optional whitespace in matchers",R+"parser.go")],["JSON form of the parsed schema"])
p("C07","Type expressions resolve to what they say",
 "A well-formed type expression - a core type, a declared struct, enum or alias, a list, or a map with a string, integer or enum key, nested to any depth - used anywhere a type is allowed resolves to exactly the structure written, with every named type linked to the declaration of that name, regardless of declaration order. Its text form is the expression without blanks, and parsing that text form again gives the same structure.",
 ["inputs"],"every nested type expression over every set of declarations, in struct fields, arguments and alias targets, in RIDL and in JSON",
 "The tests try a dozen expressions; nesting depth, mixing maps and lists, forward references and aliases combine without bound.",
 ["schema/var_type.go","schema/core_type.go",R+"type_parser.go"],[("expression parser and canonical printer","schema/var_type.go"),("RIDL type tokens",R+"type_parser.go")],["resolved type structure","type text in JSON form"])
p("C08","Malformed or undefined types are always rejected",
 "A schema, in RIDL or JSON, in which some type expression names an undeclared type, differs in letter case from a declared or core type, has a missing list element, map key or map value, unbalanced or misplaced brackets, or a map key that is not a string, integer or enum, is rejected with an error and never produces a schema.",
 ["inputs"],"every ill-formed or unresolvable expression at every position and nesting depth where a type can appear",
 "The tests contain only a few bad types at top level; errors hidden inside nested maps, lists, alias targets or argument lists are not tried.",
 ["schema/var_type.go","schema/type.go",R+"type_parser.go",R+"ridl.go"],[("resolution failure paths","schema/var_type.go"),("wrapping at each use site",R+"ridl.go")],["returned error"])
p("C09","Schemas that break a validity rule are rejected",
 "A schema that breaks one of the validity rules is rejected with an error whether it is given as RIDL or JSON: wrong or missing webrpc version; a header line given twice in RIDL; services without a schema version; a missing name; a type of unknown kind; duplicate type, field, JSON field name, service, method, error name or error code (names compared case-insensitively); lower-case type or error name; invalid field or JSON field name; enum base type that is neither integer nor string; struct field with an enum value, enum member with a type or (in JSON) without a value; error code not positive, status outside 400-599, empty message or reserved name prefix; a service without methods; short form with several arguments or on one side only; an annotation given twice to a RIDL method; a method error that is not declared. The same schema without that fault is accepted.",
 ["inputs"],"every valid schema and every single fault injected at every place the rule applies to",
 "The tests have one fixed example per rule at most; a rule can be lost for the second service, the last field, a differently-cased duplicate or one of the two formats.",
 ["schema/schema.go","schema/type.go","schema/service.go","schema/error.go",R+"ridl.go"],[("validator","schema/schema.go"),("per-entity rules","schema/type.go")],["returned error"])
p("C10","JSON schemas are captured exactly",
 "Parsing a valid JSON schema document yields exactly the header, types, fields, metadata, enum values, errors, services, methods, arguments, annotations, flags and comments in it, independent of member order, insignificant whitespace and string escaping used in the document, and of members that the format doesn't have. References to types are linked to the declared types.",
 ["inputs"],"every valid JSON schema document, with every member order, spacing and escape style",
 "Tests load a few fixed JSON documents.",
 ["schema/parser.go","schema/schema.go","schema/type.go","schema/service.go","schema/var_type.go","schema/core_type.go"],[("decoding","schema/parser.go"),("type text decoding","schema/var_type.go")],["parsed schema value","its JSON form"])
p("C11","RIDL and JSON forms are interchangeable",
 "The JSON form of any accepted schema, from RIDL or JSON, is valid JSON, is accepted as a schema, and parses to the same schema, including the resolved type structure; producing the JSON form of the result gives the same bytes again.",
 ["inputs"],"every accepted schema, from either format, with or without imports",
 "Golden files cover two schemas; a construct lost or altered in one direction shows only for schemas containing it.",
 ["schema/schema.go","schema/var_type.go","schema/type.go","schema/service.go","schema/parser.go"],[("JSON encoding","schema/schema.go"),("type text encoding and decoding","schema/var_type.go")],["JSON bytes","parsed schema value"])
p("C12","The schema hash identifies the content",
 "The schema hash of equal schemas is equal - across repeated calls, layouts, source formats and import splitting that yields the same definitions in the same order - and any change to the content of the JSON form (a name, type, value, flag, metadata entry, annotation, comment, error, method or order) changes it. It is 40 lower-case hexadecimal digits, the SHA-1 of the JSON form, and computing it changes nothing.",
 ["inputs"],"every schema and every single content change of it",
 "Tests never vary a schema and compare hashes; sensitivity to each part of the content needs generated edits.",
 ["schema/schema.go"],[("hash of the JSON form","schema/schema.go")],["hash string"])
p("C13","Imports merge into one flat schema",
 "Parsing a RIDL file with imports yields its own definitions plus, exactly once each, the types, errors and services of every imported file (directly or transitively, over any acyclic import graph, however many paths lead to a file), and when an import lists members only the listed ones. Import paths are relative to the importing file, both import forms are equivalent, and the header of imported files is not merged. Definitions come in the order of the imports, before the file's own.",
 ["inputs","configurations"],"every acyclic import graph over any directory layout, with diamonds, repeated imports, and member lists",
 "The tests have small fixed trees without shared services; duplicates and losses appear only for particular graph shapes.",
 [R+"ridl.go",R+"import_parser.go"],[("import loop and parse cache",R+"ridl.go"),("member whitelist",R+"ridl.go")],["parsed schema value"],
 [dict(name="parse cache",meaning="imported path to its parsed schema",where=R+"ridl.go")])
p("C14","Import cycles are rejected, acyclic graphs accepted",
 "Parsing a RIDL file terminates for every import graph: it fails with an error that says the import is circular exactly when the files reachable from it contain an import cycle (of any length, including a file importing itself), and succeeds otherwise.",
 ["inputs","configurations"],"every finite import graph (all edges between a set of files), through any spelling of the paths",
 "Tests have two fixed cycles and one diamond.",
 [R+"ridl.go",R+"internal/graph/graph.go"],[("import graph and cycle test",R+"internal/graph/graph.go")],["returned error"])
p("C15","Any bytes given as RIDL are handled",
 "Parsing any byte sequence as RIDL returns a schema or an error: it never panics, never runs without end, never leaves work running behind, and gives the same result every time.",
 ["inputs"],"every byte sequence, including truncated, spliced and token-mutated valid schemas, as root file or as imported file",
 "Tests contain a handful of malformed inputs; the parser is a state machine over concurrent routines, where a single unexpected token can panic outside the caller's reach or loop.",
 [R+"parser.go",R+"lexer.go",R+"tokenizer.go",R+"service_parser.go",R+"type_parser.go",R+"ridl.go","schema/var_type.go"],[("lexer and parser state machines",R+"parser.go")],["process survival","CPU use","returned error"])
p("C16","Any bytes given as JSON schema are handled",
 "Parsing any byte sequence as a JSON schema returns a schema or an error: it never panics or runs without end, whatever members are missing, null, of the wrong type or unexpected. What isn't one JSON value - cut off, or with anything but blanks after it - is always an error.",
 ["inputs"],"every byte sequence, in particular every structural mutation (null, missing, wrong type, duplicated, nested) of a valid document",
 "Tests pass a few wrong documents; missing and null members at each place are not tried.",
 ["schema/parser.go","schema/schema.go","schema/type.go","schema/service.go","schema/error.go","schema/var_type.go"],[("decoding and validation","schema/schema.go")],["process survival","returned error"])
p("C17","Every accepted schema is well formed",
 "Whatever the input, a schema accepted from RIDL or JSON satisfies all invariants that generators rely on: a supported version; unique, properly cased type names and unique field, service, method and error names and codes; every type reference fully resolved to a declared type with a legal map key; every enum member with a value and no type; errors with positive codes, names, messages and 4xx/5xx status; services with methods whose short form has at most one argument per side and whose declared errors exist.",
 ["inputs"],"every input text, in particular valid schemas altered by random token and structure edits",
 "Rejecting one bad example does not show that no bad schema gets through; this is the converse of the rejection tests.",
 ["schema/schema.go","schema/type.go","schema/service.go","schema/error.go","schema/var_type.go"],[("validator","schema/schema.go")],["parsed schema value"])
p("C18","Tree-shaking keeps exactly the types in use",
 "Tree-shaking a schema for a set of services keeps exactly the types reachable from the methods of those services - through arguments, lists, maps (keys and values), struct fields, enums and aliases, to any depth and through recursive types - in their original order and unchanged, drops all others, and leaves services and errors alone. It always terminates.",
 ["inputs"],"every schema (including recursive and mutually recursive types and shared types) and every subset of its services",
 "There is no test of it; reachability through every kind of reference and through cycles needs arbitrary type graphs.",
 ["schema/schema.go"],[("type walk","schema/schema.go")],["remaining types"])
p("C19","Service selection keeps exactly the named services",
 "Selecting services by name keeps exactly the services whose names are listed (exact match), once each, complete and in schema order, whatever the order, repetition or unknown entries in the list; an empty list keeps all services. Types, errors and header are untouched.",
 ["inputs"],"every schema and every list of names",
 "The tests try a few fixed selections.",
 ["schema/schema.go"],[("service filter","schema/schema.go")],["remaining services"])
p("C20","Annotation filters split methods exactly",
 "Matching by annotations keeps exactly the methods that carry at least one of the requested annotations - by name alone when the requested value is blank, otherwise by name and exact value - and ignoring by the same annotations keeps exactly the others. Each service keeps its surviving methods complete and in order, and nothing else changes.",
 ["inputs"],"every schema with annotated methods and every set of requested annotations",
 "The tests use fixed annotation sets on one schema; multi-annotation methods, several requests and several services interact.",
 ["schema/schema.go"],[("match and ignore filters","schema/schema.go")],["remaining methods"])
p("C21","Big-integer analysis matches the types",
 "The analysis of big-integer use lists, for each struct and for the implied request and response of each ordinary (not short-form) method, exactly the fields and arguments whose type is a big integer, a list of them, or a struct or list of structs that contains one at any depth (including through recursive structs), with list and struct markers, and omits types without any (aliases, maps and lists of lists are not followed). The yes/no form is true exactly when that or any short-form method argument shows one, and neither form changes the schema.",
 ["inputs"],"every schema whose field and argument types are scalars, structs and one-level lists of them, with any struct reference graph including cycles",
 "Tests cover a dozen fixed schemas; results depend on the whole struct graph and, with memoisation, on visiting order.",
 ["schema/helpers.go"],[("recursive search with memo","schema/helpers.go")],["returned table and boolean"],[dict(name="memo",meaning="struct name to contains-bigint",where="schema/helpers.go")])
p("C22","The base path is normalised or rejected",
 "A valid base path is reported starting and ending with a slash and otherwise as written, the same from RIDL and JSON, and an already normalised path is unchanged; an empty one stays empty. A base path with blanks, a query, a fragment or a URL scheme is rejected.",
 ["inputs"],"every base path text",
 "Tests try a table of about ten strings.",
 ["schema/schema.go"],[("base path validation","schema/schema.go")],["base path of the parsed schema","returned error"])
p("C23","Syntax errors point at the offending line and file",
 "When a RIDL text contains a single syntax error, the reported error gives the line number of the offending line, whatever precedes it, and the same text always gives the same error. When the error is in an imported file, the message also lists the chain of files from the failing file up to the root, in that order.",
 ["inputs"],"every valid schema, every position of an injected malformed line, every import depth",
 "Tests look at two messages in fixed files.",
 [R+"parser.go",R+"lexer.go",R+"ridl.go"],[("line counting",R+"lexer.go"),("import stack",R+"ridl.go")],["error text"])
p("C24","Schema files load by path and extension",
 "Loading a schema from a file gives the same result as parsing its content in the format named by its extension (.ridl or .json), for relative and absolute paths, any working directory, symbolic links (which count by their own name and place), and imports that go up or down directories; any other extension or a missing file is an error.",
 ["inputs","configurations"],"every directory layout, path spelling and schema",
 "Tests load a few fixed paths.",
 ["webrpc.go",R+"ridl.go"],[("extension dispatch and root file system","webrpc.go")],["parsed schema","returned error"])
p("C25","Quoted RIDL values are taken literally",
 "Wherever RIDL allows a quoted value (name, version, error message, enum value, metadata value, annotation value), the parsed value is exactly the text between the quotes with the escapes for quote, newline and tab decoded, for any text including non-ASCII characters, punctuation, '#' and repeated blanks; a string that is not closed on its line or has an unknown escape is rejected.",
 ["inputs"],"every text without raw line breaks or control characters at every quotable position",
 "Tests use short ASCII strings; each character class and its position next to quotes and escapes matters.",
 [R+"parser.go",R+"parser_util.go",R+"lexer.go",R+"tokenizer.go"],[("string scanning",R+"parser.go"),("unescaping",R+"parser_util.go")],["parsed values"])
p("C26","Template type functions agree with the type",
 "For every type in a schema the template type predicates (core, struct, enum, alias, list, map) say exactly what the type is, and the map-key, map-value and list-element functions return exactly its parts, so that a template that recurses through them rebuilds the original type expression; predicates and parts are the same whether they are given the resolved type or its text where text suffices.",
 ["inputs"],"every nested type expression over every set of declarations",
 "Tests cover no nested expressions; templates recurse through these functions for arbitrary types.",
 ["gen/funcmap_types.go","gen/funcmap.go","gen/funcmap_string.go"],[("type functions","gen/funcmap_types.go")],["template output"])
p("C27","Version comparison in templates is a proper ordering",
 "The minimum-version check given two versions of the form [v]MAJOR[.MINOR[.PATCH...]] is true exactly when the first (major, minor) pair is not lower than the second in lexicographic order: it is reflexive, transitive and total, ignores the optional leading v and everything after the minor number, and a missing minor number counts as 0.",
 ["inputs"],"every pair of version strings",
 "Tests cover a table of pairs and none with a higher major and lower minor number.",
 ["gen/funcmap_flow.go"],[("version comparison","gen/funcmap_flow.go")],["template output"])
p("C28","Code generation is deterministic and format-independent",
 "Generating any target from the same schema gives byte-identical output on every run, whether the schema came from RIDL or from its JSON form, and does not alter the schema's definitions. The json target prints the schema's JSON form, a schema with services but no base path gets '/rpc/', and the schema hash and definitions offered to templates are those of the schema being generated. Formatting applies only to the output of Go generators, and makes it import exactly the packages of the standard library that it uses; code that can't be formatted is given as it is, with a format error.",
 ["inputs","configurations"],"every schema, built-in targets and local template directories, and template options",
 "The repository's tests never run generation on varied schemas; map iteration order and shared mutable schema state make it easy to lose determinism.",
 ["gen/gen.go","gen/template_source.go","gen/funcmap.go"],[("generate","gen/gen.go")],["generated text"])
p("C29","Command-line flags compose like the library",
 "For every schema and every combination of flags, the generator command prints or writes exactly what parsing, overriding the schema version, tree-shaking, service selection, annotation ignore or match, and generation produce in that order; unknown flags are passed to templates as options with their values, an output file gets the same bytes as standard output apart from the final newline, and missing schema, missing target, invalid schemas, targets or templates and conflicting flags exit non-zero and write no output file. Messages of templates go to standard error, a template's exit code becomes the command's, -help shows the help of the target named before it and generates nothing. The summary after writing a file names the templates, schema and output file, and for remote templates the state of their cache, a failed refresh included.",
 ["inputs","configurations"],"every schema file and flag combination",
 "The command has no tests at all; flags interact.",
 ["cmd/webrpc-gen/main.go","schema/schema.go","gen/gen.go"],[("flag handling","cmd/webrpc-gen/main.go")],["stdout","exit code","output file"])
p("C30","Template collection and string functions obey their laws",
 "In templates, dictionaries behave as maps (get returns what was set last, get of an absent key is an error, exists agrees with membership); arrays built, appended to, joined, sorted, and asked for first, last and last index agree with the corresponding sequence operations and never modify their argument visibly; in, ternary, default and coalesce pick exactly the value documented; the letter- and word-case helpers change only the case of the leading letter or word and split/join and prefix/suffix helpers agree with their string definitions; asking whether a value has a field agrees with the fields it has; parts of values that have none are errors.",
 ["inputs","histories"],"every sequence of dictionary operations and every argument list",
 "Tests cover fixed examples of some functions only.",
 ["gen/funcmap.go","gen/funcmap_dict.go","gen/funcmap_generic.go","gen/funcmap_string.go"],[("function table","gen/funcmap.go")],["template output"])
p("C31","Template variables describe the schema, tool and options",
 "A template sees the schema being generated, its hash, the protocol version, the tool version, the target as given, exactly the custom options passed, the fixed list of built-in errors, and the name and version of the generator; the combined header names tool, generator and schema with their versions, using the schema hash in place of a missing schema version. Each spelling of an embedded target stands for the templates of its own module in the version of the module file.",
 ["inputs","configurations"],"every schema, target spelling and option set",
 "No test runs a template with varied schemas, targets and options.",
 ["gen/gen.go","gen/errors.go","gen/embed.go"],[("variable assembly","gen/gen.go"),("header","gen/gen.go")],["template output"])
p("C32","Cached remote templates survive fetch failures",
 "When remote templates cannot be fetched, generation uses the cached copy of exactly that target if one was completely cached - of any age, and also when a refresh was requested - reports the failure, and leaves the cache as it was; without a cached copy it fails with an error. A fresh cached copy is used without fetching, and different targets never share a cache entry. When fetched templates cannot be written to the cache, they are used all the same and this is reported, and whatever is left in the cache is never used as a mixture of versions or targets.",
 ["fault_sequences","configurations"],"every cache state (absent, partial, fresh, stale, several targets), with the network failing in every way or parts of the cache not writable, and every refresh request",
 "The existing tests do not touch the cache.",
 ["gen/template_source.go"],[("cache lookup, expiry and fallback","gen/template_source.go")],["generated text","reported cache state","cache directory"],[dict(name="template cache",meaning="templates and time stamp per target under the temp directory",where="gen/template_source.go")])
p("C33","Parsing has no shared state",
 "Parsing is a pure function of its inputs: any number of schemas parsed or serialised concurrently or one after another, in any order and interleaving, each give the same result as parsed alone, with no data race, and transforming one resulting schema never changes another.",
 ["schedules","inputs"],"every set of inputs and every interleaving the Go scheduler produces",
 "All tests are sequential and parse each input once.",
 [R+"ridl.go",R+"parser.go","schema/schema.go","schema/core_type.go"],[("per-parser state only",R+"ridl.go")],["JSON form of results","race detector"])
p("C34","Lookups on an accepted schema agree with its definitions",
 "On every accepted schema - from RIDL with or without imports, or JSON - looking up a type or service by name in any letter case gives exactly the definition of that name in the schema, and nothing for a name that is not defined; the required fields of a struct are exactly its non-optional fields in order; every type expression prints as its canonical text, core types read and write the same name; services and methods refer back to their schema and service, arguments know whether they are input or output; and none of this changes the schema. The name helpers change the case of the first letter only.",
 ["inputs"],"every accepted schema and every name",
 "Tests look at the required fields of two structs.",
 ["schema/schema.go","schema/type.go","schema/var_type.go","schema/service.go","schema/var_name.go"],[("lookups","schema/schema.go"),("required fields","schema/type.go")],["results of the accessors"])
p("C35","Reference client and server exchange exactly what was passed",
 "Whatever a caller passes to the reference client arrives unchanged at the implementation behind the reference server, and whatever the implementation returns - every value of the schema's types, every schema error, own error with its status and cause, or plain error - arrives unchanged at the caller, in the JSON form that the schema defines. Requests for unknown routes, with other HTTP methods, content types or malformed or ill-typed bodies are answered with the matching built-in error and never reach the implementation; a panic is answered with an error; failing transports, cut or malformed responses and cancelled calls come back as the matching built-in client error.",
 ["inputs","histories","fault_sequences"],"every sequence of calls with any arguments, results, errors and faults",
 "The interoperability test makes one fixed sequence of calls with fixtures.",
 ["tests/client/client.gen.go","tests/server/server.gen.go"],[("request dispatch","tests/server/server.gen.go"),("doHTTPRequest","tests/client/client.gen.go")],["calls of the implementation","results at the caller","HTTP messages"])
p("C36","The conformance suite tells conforming servers from others",
 "The conformance suite (webrpc-test) passes against every server that answers as the reference server does, however it writes its JSON, and fails against a server that gives one wrong answer: a wrong error code, name, message, status or cause, a changed or missing value, a failed or cut response. The reference server gives out its fixtures and accepts exactly them. The command exits with 0 or 1 accordingly, waits until a server is ready or the time is up, serves the reference server, and prints the schema that client and server were made from.",
 ["inputs","fault_sequences"],"every conforming way to write responses and every single wrong response",
 "The interoperability test runs the suite against the reference server only; that the suite can fail isn't tested.",
 ["tests/client/client.go","tests/server/server.go","cmd/webrpc-test/main.go","tests/embed.go"],[("suite","tests/client/client.go"),("fixtures","tests/server/server.go")],["result of the suite","exit code of webrpc-test"])
p("C37","A schema is never made of less than its files",
 "A schema is only reported when its root file and every file it imports, directly or not, were read completely: when any of them is missing, denied, a directory, can't be opened or breaks off while it is read, parsing is an error that says why - also when the import lists no member of that file - and parsing again afterwards, even with the same parser, gives the whole schema or an error. The size and pace of reads make no difference. Only the root file and imported files are opened, each once however many paths lead to it, and are closed again; an import path that leads out of the given file system is an error and nothing there is opened.",
 ["inputs","fault_sequences"],"every tree of files, every fault of every file at every byte, every way to deliver the bytes, every sequence of attempts",
 "Tests read well-behaved in-memory files; none of them injects a fault or parses again after one.",
 [R+"ridl.go","webrpc.go"],[("reading of files and the cache of imports",R+"ridl.go")],["parsed schema","returned error","calls of the file system"],[dict(name="cache",meaning="imported files that were parsed",where=R+"ridl.go")])
p("C38","Transforms compose",
 "Any sequence of tree-shaking, service selection and annotation matching and ignoring on an accepted schema - with hashing, printing, lookups and analyses anywhere in between - has the effect of its steps one after another: after each step the schema consists of exactly what that step keeps of what was left before, lookups find what is left and nothing else, and the hash is that of what is left. When every service still has methods and every type in use is there, the result is a valid schema of its own: its JSON form is accepted and stands for it, with the same hash and big-integer analysis; otherwise its JSON form is rejected.",
 ["histories","inputs"],"every accepted schema and every sequence of transforms of it",
 "Tests call each transform once on a small schema, never one after the other.",
 ["schema/schema.go","schema/helpers.go"],[("transforms in place","schema/schema.go")],["definitions after each step","JSON form","hash","lookups"],[dict(name="schema",meaning="definitions that are left",where="schema/schema.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
