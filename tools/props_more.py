prop("C13", "References across documents behave as the schema they point to",
 "A schema spread over documents on disk or behind an allowed web server generates values valid for the schema the references describe together: relative references resolve against the document they are in, whatever keyword uses them, and documents may refer to each other in cycles.",
 ["inputs", "configurations"], "two to four documents in different directories, on disk, over http or both, every style of reference (relative, ./ and ../, path, absolute URL, whole document or pointer), from every place references are allowed in; every random seed",
 TESTS + "a handful of documents in one directory are among them; which document a reference is relative to goes wrong only two documents deep or after a merge.",
 ["document.go", "reference.go", "reference_hander.go", "merge.go", "schema.go", "fetchers.go"], [("documentResolver: base documents and loading", "document.go"), ("mergeResolveReference: rewriting of references", "merge.go"), ("schemaManager: validators across documents", "schema.go"), ("fetchers", "fetchers.go")])
prop("C14", "Keywords composed with each other: no reported error, valid values",
 "Schemas that compose objects, arrays, enums, numbers, strings, anyOf, oneOf, allOf, if/then/else, not and references with each other at several levels generate values valid for the whole schema; a satisfiable schema is taken without errors.",
 ["inputs"], "satisfiable compositions up to four levels deep; every random seed",
 TESTS + "each composition of keywords goes through another path of the merge code; tests hold a few.",
 ["merge.go", "combination.go", "all_of.go", "not.go", "if.go", "object.go", "array.go"], [("mergeSchemaNodes", "merge.go"), ("parseCombination", "combination.go"), ("parseNot", "not.go")])
prop("C15", "Parsing and generating end without a crash, whatever the schema is",
 "For any bytes at all parsing returns: an error, or a generator. Generating from it returns a value that can be written as JSON. There is no panic, no endless run and no memory exhausted, also for schemas that make no sense, contradict themselves, refer to themselves or are nested deeply, and for any generator options.",
 ["inputs", "configurations"], "schemas of random keywords with values of the right and the wrong kind, arbitrary and damaged bytes, cycles of references through every keyword, nesting up to 1500 levels, random generator options; every random seed",
 TESTS + "a panic needs a keyword with an unexpected value next to another one.",
 ["parse.go", "json.go", "merge.go", "not.go", "object.go", "array.go", "string.go", "number.go"], [("ParseSchema", "parse.go"), ("UnmarshalJSON of schema nodes", "json.go"), ("generators", "generator.go")],
 note="No counterexample in the cases counted by the evidence file. A crash, 20 s of CPU time or 3 GB for one case count as violations when a fresh process shows them again. Sizes are kept below 2^31.")
prop("C16", "Generation stays within its bounds on steps, references and attempts",
 "Past MaximumGenerationSteps arrays and objects hold only what their schema requires, past CutoffGenerationSteps generation stops altogether, and references nest no deeper than MaximumReferenceDepth, so that generation ends however much a schema asks for, with recursive schemas growing without an end and with keywords that retry inside keywords that retry.",
 ["inputs", "configurations"], "nested arrays and objects with minima and room above them, definitions that require each other, nested oneOf/not/if/uniqueItems nothing satisfies; every combination of step limits, reference depths and the cycle check; every random seed",
 TESTS + "the counters have to be right for each kind of generator; a test that only looks at the value does not see them drift.",
 ["generator.go", "object.go", "array.go", "reference.go", "combination.go", "constraint.go"], [("ShouldMinimize, ShouldCutoff", "generator.go"), ("referenceGenerator.Generate", "reference.go"), ("step counts of arrays and objects", "array.go")])
prop("C17", "What cannot be generated for is reported, wherever it is in a schema",
 "When a schema holds a part that nothing satisfies or that is documented as unsupported (bounds that exclude each other, patterns that do not compile, references to nothing, constants outside of their bounds, contradicting allOf branches, ...) in a place where values are generated for it, parsing returns an error or lists one in the generator's metadata, however deep the part is; with the part made satisfiable nothing is reported.",
 ["inputs"], "50 kinds of broken parts with random numbers, in up to three nested contexts (required and optional properties, items, prefixItems, additionalProperties, patternProperties, contains, allOf, anyOf, references, then and else), each with a satisfiable twin",
 TESTS + "a report has to get from where it is found to the top through every keyword on the way; tests look at a report at the top.",
 ["error.go", "parse.go", "merge.go", "reference_hander.go", "object.go", "array.go", "number.go", "string.go"], [("errorCollection", "error.go"), ("ParseSubSchema and parse contexts", "parse.go"), ("contradictions of merged schemas", "merge.go")],
 note="Parts inside not, if, and branches next to satisfiable ones of anyOf and oneOf are not required to be reported.")
prop("C18", "Parser and generator options are what generation goes by",
 "Array and object sizes without bounds of their own come from the Default...Min/Max options and reach both ends of them, bounds in the schema take precedence; strings of patterns and names of patternProperties follow their respective regex options; keywords that retry do so as often as the options say; schemas as deep as MaxParseDepth are taken and deeper ones reported; values stay valid for the schema with any of the options for sizes; recursive references end where the check for cycles or MaximumReferenceDepth says they do, and not before.",
 ["inputs", "configurations"], "every combination of bounds in the schema and in the options up to a size of about 10, regex options, attempts from 1 to 250, MaxParseDepth from 1 to 150; every random seed",
 TESTS + "most of the options are left at their defaults by tests; precedence of schema over options needs every combination.",
 ["generator.go", "parse.go", "array.go", "object.go", "string.go", "regex.go", "constraint.go"], [("GeneratorOptions and withGeneratorOptionsDefaults", "generator.go"), ("ParserOptions", "parse.go"), ("arrayGenerator.Generate", "array.go"), ("objectGenerator.Generate", "object.go")],
 note="DefaultNumber... and DefaultString... options do nothing: a listed finding.")
prop("C19", "Values, schemas and options are not shared between generations",
 "What a caller does to a generated value, to the bytes of the schema or to the options afterwards changes nothing that is generated next; what was generated, parsed or asked for before does not either; parsing and generating leave the schema and the options they are given as they were; several goroutines may parse at once, and generate from one generator with options of their own, without a data race and with the results they have one after another.",
 ["inputs", "histories", "schedules"], "random schemas of all keywords; values changed in every part; histories of generations with random options and of parsing other schemas; eight goroutines under the race detector; every random seed",
 TESTS + "tests look at one value at a time: what is shared shows in the second one, a race only under a scheduler.",
 ["enum.go", "const.go", "generator.go", "merge.go", "parse.go", "not.go"], [("const and enum generators", "enum.go"), ("Generate and its counters", "generator.go"), ("merging of schema nodes", "merge.go")])
prop("C20", "The same seed makes the same values",
 "With the source of randomness of the options seeded the same way, a schema without patterns, formats and free strings (which use sources of their own) generates the same values each time, from whichever generator parsed from it, whatever the order of the keys and the white space in the text of the schema, and independent of the global source of randomness of Go.",
 ["inputs", "schedules"], "random compositions of all other keywords, in pairs of texts that differ in the order of keys; every random seed",
 TESTS + "what depends on the order a Go map is walked in differs between runs, not within a test that runs once.",
 ["object.go", "merge.go", "not.go", "generator.go", "combination.go"], [("objectGenerator.Generate", "object.go"), ("mergeSchemaNodes", "merge.go")],
 note="Strings that do not come from enum or const are compared by their place, not by their text.")
prop("C21", "RandUtil: every result is within what was asked for, and all of it is reached",
 "RandomInt and RandomFloat stay within their bounds and reach all of them, StringChoice and Choice return one of the given items and each of them in time, StringChoiceMultiple returns as many different positions as asked for, RandomBool and RandomInt are not skewed, none of it changes its arguments, and the same seed has the same results.",
 ["inputs", "histories"], "sequences of up to 40 operations with random bounds (also reversed, equal and around zero) and lists; every random seed",
 TESTS + "an off by one bound is hit by one in as many draws as the range is wide.",
 ["rand/random.go"], [("RandUtil", "rand/random.go")],
 note="Ranges wider than the largest int are left out: RandomInt overflows there.")
prop("C22", "Every alternative of a schema is reached",
 "Among the values generated for a schema there are ones for each branch of anyOf and oneOf, of then and of else, with each optional property and without it, of each listed type, of each member of an enum, of each number a small range or multiple allows, with each number of items between the bounds, at every level of nesting, through references and combined by allOf.",
 ["inputs"], "satisfiable compositions up to three levels deep with witness schemas for each alternative and an estimate of how often it has to occur; as many values as make a miss less likely than 1e-12; every random seed",
 TESTS + "a value of the branch that is still generated is valid, so that no check of validity sees a branch that never is.",
 ["combination.go", "if.go", "object.go", "array.go", "multiple_type.go", "enum.go", "merge.go"], [("combinationGenerator.Generate", "combination.go"), ("optional properties", "object.go"), ("ifGenerator", "if.go")])
prop("C23", "No file is read that the file system options do not allow",
 "While a schema is parsed and generated from, no file is opened but those at or below the allowed paths, or the working directory where there are none and AllowOutsideCwd is off, judged by where a file really is after symbolic links and dots; whichever way a reference is spelled, whichever keyword it is in and whichever document it comes from, redirects included. References to other files are reported and none of their content is in values; files that are allowed are read and followed.",
 ["inputs", "configurations"], "files in ten directories in and around the working directory, links to files and directories, allowed paths in six forms, references spelled relative, absolute, as URLs and in 20 odd ways, through chains of up to three documents",
 TESTS + "a confinement is as good as the one spelling, keyword or second document that gets around it.",
 ["fetchers.go", "document.go", "schema.go"], [("fileSystemDocumentFetcher", "fetchers.go"), ("LoadDocument", "document.go"), ("documentLoader", "schema.go")],
 note="Opens are watched with inotify, inside of a scratch directory; no path outside of it is referred to except through /proc/self.")
prop("C24", "No host is contacted that the HTTP options do not allow",
 "While a schema is parsed and generated from, no request is made and no connection opened to a host but the allowed ones, if any are listed, and none over http unless AllowInsecure is on, at each step of a redirect, whichever way a reference is spelled, whichever keyword it is in and whichever document it comes from. References to other hosts are reported and none of what they serve is in values; documents on allowed hosts are fetched and followed.",
 ["inputs", "configurations"], "two hosts over http and two over https, allowed hosts in three forms, redirects over up to twelve steps between them, references spelled relative, absolute and in 18 odd ways, through chains of up to three documents",
 TESTS + "one redirect, one spelling, or one place a document is loaded from without asking is enough.",
 ["fetchers.go", "document.go", "schema.go"], [("httpDocumentFetcher", "fetchers.go"), ("LoadDocument", "document.go"), ("documentLoader", "schema.go")],
 note="Hosts are ports of the loopback interface. What references of a redirected document are relative to is left open.")
prop("C25", "Without options no file is read and no connection made",
 "With file system and HTTP access left off, as they are by default, parsing and generating read no file besides the one ParseSchemaFile is given and make no connection, and with one of them on nothing of the other; references to other documents are reported.",
 ["inputs", "configurations"], "the documents, references and keywords of C23 and C24, from schemas in memory and in files; both off, or either on",
 TESTS + "documents can be loaded by several ways (references, merging, validators), each of which has to ask.",
 ["fetchers.go", "document.go", "schema.go", "parse.go"], [("newDocumentResolver: fetchers", "document.go"), ("documentLoader", "schema.go")])
prop("C26", "The command line tool writes one valid value, or fails",
 "For a satisfiable schema from a file or stdin the tool ends with status 0 and writes one JSON value that is valid for it to stdout or to the new file of -output, compact or indented with -format; the limits are those of its flags. For what is no schema it ends with status 1, a text on stderr and nothing on stdout. It never ends with a crash, and never changes a file that is there already, also when several run at once.",
 ["inputs", "configurations", "schedules"], "the schemas of C07 to C10 and C14, damaged schemas and arbitrary bytes, every flag with random values, output to new and existing files, links and directories in several spellings, up to eight processes at once",
 TESTS + "there is no test of the tool.",
 ["cli/cli.go"], [("main", "cli/cli.go"), ("writeFile", "cli/cli.go")])
prop("C27", "The command line tool fetches what its flags allow, nothing else",
 "Without -allowed-hosts the tool makes no connection and without -allowed-paths or -allow-outside-cwd it reads no file but that of -file; with them it fetches documents within what they name (over http only with -allow-insecure), for schemas from files and from stdin; other references are reported with -verbose and nothing they refer to is in values.",
 ["inputs", "configurations"], "the documents and references of C23 and C24 with the four flags in all combinations, schema from a file or stdin, in several working directories",
 TESTS + "there is no test of the tool; how flags become options decides what is fetched.",
 ["cli/cli.go", "fetchers.go", "document.go"], [("getHttpDocumentFetcherOptionsFromFlags", "cli/cli.go"), ("getFileSystemDocumentFetcherOptionsFromFlags", "cli/cli.go")])
prop("C28", "Every way to parse a schema gives the same generator",
 "ParseSchema, ParseSchemaString and ParseSchemaFile, each with empty options or with defaults, report the same and generate the same values from the same seed for the same schema, whatever the names of the file and of the working directory are; GenerateWithDefaults generates valid values; files that cannot be read are errors.",
 ["inputs", "configurations"], "schemas of C14, C17 and C20, damaged schemas and arbitrary bytes; names of files and directories with spaces, %, # and ? in them; every random seed",
 TESTS + "tests parse from one name; documents are identified by URLs built from it.",
 ["parse.go", "document.go", "fetchers.go", "root.go"], [("ParseSchemaFile", "parse.go"), ("newDocumentResolver", "document.go")])
prop("C29", "Annotations and unknown keywords change nothing that is generated",
 "With title, description, default, examples, $comment, readOnly, unused definitions and keywords JSON Schema does not know added anywhere in a schema, also such that differ from known ones in case or by a prefix, nothing is reported that was not before, and the same values are generated from the same seed (where strings come from patterns: values valid for the schema as it was).",
 ["inputs"], "the compositions of C14 with up to four of twelve kinds of additions in each sub-schema, with values of any kind; every random seed",
 TESTS + "schemas of tests carry a title at most.",
 ["json.go", "parse.go", "merge.go", "not.go"], [("schemaNode.UnmarshalJSON", "json.go"), ("mergeSchemaNodes", "merge.go")])
prop("C30", "Each definition has a generator of its own",
 "After parsing, Defs holds a generator for each member of $defs and Definitions one for each member of definitions of the root schema, by its name and for nothing else, whether or not anything refers to it; each generates, with options that are filled in, values valid for its definition, with what this refers to in the same schema.",
 ["inputs"], "one to three schemas of eleven kinds (compositions, conditionals, negations, type lists, contains, overlapping properties) and up to two users of them as definitions under either keyword, with names that need escapes; every random seed",
 TESTS + "tests generate from the root alone, where definitions nothing refers to are never used.",
 ["root.go", "reference_hander.go", "parse.go"], [("parseDefinitions", "root.go"), ("ParseNodeInScope", "reference_hander.go")])
prop("C31", "A report names the document and the place of what is wrong",
 "When parts of a schema cannot be generated for, each has a report in the generator's metadata filed under the document it is in and a location at or below its JSON pointer (names as they are, without escapes), also when several parts are broken, in other documents, or behind references; no report is filed for a place that is neither above nor below a broken part or a reference that leads to one.",
 ["inputs"], "up to six broken parts of 48 kinds in up to five documents, at places reached by up to four of properties, additionalProperties, patternProperties, items, prefixItems, contains, anyOf, oneOf, definitions and references; every random seed",
 TESTS + "the path of a report is put together by every keyword on the way and by the document being parsed at that time; tests look at whether there is a report.",
 ["error.go", "reference_hander.go", "document.go", "object.go", "array.go", "combination.go"], [("errorCollection.AddErrorWithSubpath", "error.go"), ("ParseNodeInScope: path of what is parsed", "reference_hander.go"), ("GetDocumentIdCurrentlyBeingParsed", "document.go")],
 note="References to nothing are filed under their target. Broken parts inside allOf, then, else, not and if are filed under the merged schema and left out here. Validators of oneOf that use references need the whole document, so that a report of theirs is accepted wherever there is one broken part.")
