"""Writes properties.jsonl and MANIFEST.json: python -m mc.spec."""
import json
import os

from mc import core

PY_PARSE = "mapry/py/generate/fromjsonable.py"
PY_SER = "mapry/py/generate/tojsonable.py"
GO_PARSE = "mapry/go/generate/fromjsonable.py"
GO_SER = "mapry/go/generate/tojsonable.py"
CPP = "mapry/cpp/generate/jsoncpp_impl.py"

PY_TYPES = "mapry/py/generate/types.py"
GO_PTEST = "mapry/go/generate/fromjsonable_test.py"
GO_STEST = "mapry/go/generate/tojsonable_test.py"

P = []


def prop(id_, title, statement, over, text, why, files, mechanism,
         technique, note):
    P.append(dict(id=id_, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note))


DOCS = ("every schema of a corpus of more than 200 (all leaf types with "
        "every combination of bounds, patterns and formats, all positions, "
        "all one- and two-reference topologies over two classes, embeds in "
        "embeds, sizes, names) and every document that deviates from a valid "
        "one in at most k places (k=1 everywhere, k=2 on a subset in quick "
        "and everywhere in thorough), deviations taken from alphabets of "
        "boundary, wrong-kind, absent, dangling and additional values")
FEW = ("The tests compare the generated text with stored text and run the "
       "generated code on a few sample documents per schema; they say "
       "nothing about other schemas or other documents.")
MC_DOCS = ("explicit enumeration of schemas x documents against a reference "
           "interpreter, on the real generated code")

prop("P01", "Generated Python: valid documents survive parsing and serializing",
     "For every valid schema and every document valid under it, the object "
     "graph that the generated Python code parses serializes to a JSON value "
     "with the same meaning: every property under its JSON name, absent "
     "optional properties left out, every reference as the identifier, every "
     "instance in its registry, nothing added. Parsing that value again gives "
     "an equal object graph without errors.",
     ["inputs", "programs"], DOCS, FEW, [PY_PARSE, PY_SER],
     [("generated parsing", PY_PARSE), ("generated serialization", PY_SER)],
     MC_DOCS,
     "Exhaustive within the corpus of schemas and the deviation bound; the "
     "reference interpreter shares no code with mapry.")
prop("P02", "Generated Python: documents are accepted exactly when valid",
     "For every valid schema, the generated Python code accepts a document "
     "exactly if every required property is there and every value satisfies "
     "its type, bounds (inclusive or exclusive, integral or fractional), "
     "pattern, format, size limits and identifier pattern. An accepted "
     "document gives an object graph with exactly the documented values, and "
     "the parsing never raises an exception on a document.",
     ["inputs", "programs"], DOCS, FEW, [PY_PARSE, "mapry/py/generate/parse.py"],
     [("generated parsing of all types", PY_PARSE)], MC_DOCS,
     "Exhaustive within the corpus and the bound. Two known findings "
     "(Booleans as numbers, null registries) are modelled exactly.")
prop("P03", "Generated Python: every error is reported at the place that caused it",
     "For every valid schema and every invalid document, the generated Python "
     "code reports exactly one error with a non-empty message per violated "
     "place, at the reference of that place below the reference given by the "
     "caller, and gives no object graph. Given a container with a cap, it "
     "reports the smaller of the cap and the number of violations, all of "
     "them among those reported without a cap.",
     ["inputs", "programs"], DOCS, FEW, [PY_PARSE, "mapry/py/generate/parse.py"],
     [("references composed in the generated parsing", PY_PARSE),
      ("error container", "mapry/py/generate/parse.py")], MC_DOCS,
     "Exhaustive within the corpus and the bound, caps 0 to 3 and three "
     "caller references.")
prop("P19", "Generated Python keeps the order of registries, maps and arrays",
     "In the object graph parsed by the generated Python code, registries, "
     "maps and arrays list their items in the order of the document, and the "
     "serialization keeps that order, at every nesting depth.",
     ["inputs", "programs"], DOCS, FEW, [PY_PARSE, PY_SER],
     [("ordered dictionaries in parsing", PY_PARSE),
      ("ordered dictionaries in serialization", PY_SER)], MC_DOCS,
     "Exhaustive within the corpus and the bound; documents include keys in "
     "non-alphabetical order.")
prop("P26", "Generated Python: parsing and serializing have no side effects",
     "The generated Python code neither changes nor shares the containers of "
     "the document it parses or of the graph it serializes, and doing the "
     "same again, in the same process and after any other document, gives an "
     "equal outcome.",
     ["inputs", "histories"], DOCS, FEW, [PY_PARSE, PY_SER],
     [("fresh containers per call", PY_PARSE)], MC_DOCS,
     "Exhaustive within the corpus and the bound; all documents of a schema "
     "are run in one process in sequence, so that leaking state shows.")

GO_TYPES = "mapry/go/generate/types.py"
CPP_TYPES = "mapry/cpp/generate/types_header.py"
CPP_H = "mapry/cpp/generate/jsoncpp_header.py"
ALL_GEN = [PY_PARSE, PY_SER, GO_PARSE, GO_SER, CPP]

prop("P04", "References resolve to the one instance they name, in every topology",
     "In Python, Go and C++, every reference in a parsed object graph is the "
     "very instance registered under the identifier in the document, whatever "
     "the order of the classes and registries and whether the references are "
     "forward, backward, to itself, cyclic or shared. A reference to an "
     "identifier which is not registered is rejected. Serialization writes "
     "the identifiers back.",
     ["inputs", "programs"],
     "all topologies with one or two reference properties over two classes "
     "and the graph, plain, optional, in arrays and in maps, and all "
     "assignments of references over up to three identifiers per registry "
     "with up to 2 (4 in thorough) deviations",
     FEW, [PY_PARSE, GO_PARSE, CPP],
     [("two passes: placeholders, then references", PY_PARSE),
      ("registries filled before parsing in Go", GO_PARSE),
      ("registries filled before parsing in C++", CPP)], MC_DOCS,
     "Exhaustive within the topologies and the bound; identity of instances "
     "is compared, not equality.")
prop("P05", "Generated Go: documents are accepted exactly when valid",
     "For every valid schema, the generated Go code accepts a document "
     "exactly if every required property is there and every value satisfies "
     "its type, bounds, pattern, format, size limits and identifier pattern. "
     "An accepted document gives an object graph with exactly the documented "
     "values, and the generated code compiles and does not panic while the "
     "errors it found so far are none.",
     ["inputs", "programs"], DOCS, FEW, [GO_PARSE, GO_TYPES],
     [("generated parsing of all types", GO_PARSE)], MC_DOCS,
     "Exhaustive within the corpus and the bound, on compiled code.")
prop("P06", "Generated Go: every error is reported at the place that caused it",
     "For every valid schema and every invalid document, the generated Go "
     "code reports an error with a non-empty message per violated place, at "
     "the reference of that place below the reference given by the caller. "
     "With a cap, it reports the smaller of the cap and the number of "
     "violations, all of them among those reported without a cap.",
     ["inputs", "programs"], DOCS, FEW, [GO_PARSE, "mapry/go/generate/parse.py"],
     [("references composed in the generated parsing", GO_PARSE),
      ("error container", "mapry/go/generate/parse.py")], MC_DOCS,
     "Exhaustive within the corpus and the bound. The known panic after a "
     "first error is modelled exactly, so errors before it are still checked.")
prop("P07", "Generated Go: valid documents survive parsing and serializing",
     "For every valid schema and every valid document, the object graph that "
     "the generated Go code parses serializes to a JSON value with the same "
     "meaning, with absent optional properties left out and references as "
     "identifiers. Parsing that value again gives an equal object graph "
     "without errors.",
     ["inputs", "programs"], DOCS, FEW, [GO_PARSE, GO_SER],
     [("generated serialization", GO_SER)], MC_DOCS,
     "Exhaustive within the corpus and the bound, on compiled code.")
prop("P08", "Generated C++: documents are accepted exactly when valid",
     "For every valid schema, the generated C++ code accepts a document "
     "exactly if every required property is there and every value satisfies "
     "its type, bounds, pattern, format, size limits and identifier pattern. "
     "An accepted document gives an object graph with exactly the documented "
     "values, and the generated code compiles and throws nothing on a "
     "document.",
     ["inputs", "programs"], DOCS, FEW, [CPP, CPP_TYPES],
     [("generated parsing of all types", CPP)], MC_DOCS,
     "Exhaustive within the corpus and the bound, on compiled code. JsonCpp "
     "is not installed; a substitute written for the checks stands in.")
prop("P09", "Generated C++: every error is reported at the place that caused it",
     "For every valid schema and every invalid document, the generated C++ "
     "code reports an error with a non-empty message per violated place, at "
     "the reference of that place below the reference given by the caller. "
     "With a cap, it reports the smaller of the cap and the number of "
     "violations, all of them among those reported without a cap.",
     ["inputs", "programs"], DOCS, FEW, [CPP, "mapry/cpp/generate/parse_impl.py"],
     [("references composed in the generated parsing", CPP),
      ("error container", "mapry/cpp/generate/parse_impl.py")], MC_DOCS,
     "Exhaustive within the corpus and the bound, on compiled code with a "
     "substitute for JsonCpp.")
prop("P10", "Generated C++: valid documents survive parsing and serializing",
     "For every valid schema and every valid document, the object graph that "
     "the generated C++ code parses serializes to a JSON value with the same "
     "meaning, with absent optional properties left out and references as "
     "identifiers. Parsing that value again gives an equal object graph "
     "without errors.",
     ["inputs", "programs"], DOCS, FEW, [CPP, CPP_H],
     [("generated serialization", CPP)], MC_DOCS,
     "Exhaustive within the corpus and the bound, on compiled code with a "
     "substitute for JsonCpp. A known finding (composites without any "
     "property set) is modelled exactly.")
prop("P17", "Date and time formats mean the same in Python, Go and C++",
     "For every supported format, a text in the format parses to the moment "
     "which it denotes, and the moment is serialized to the same text, in "
     "Python, Go and C++ (ctime and date.h alike). A language which can not "
     "express a format refuses the schema instead of generating code which "
     "misreads it.",
     ["inputs", "programs", "configurations"],
     "all formats with one or two directives and every separator of an "
     "alphabet, three directives, directives next to literals that Go takes "
     "for directives, and combinations of dates and times; on moments at the "
     "turns of days, noons, years, centuries and leap days",
     FEW, ["mapry/strftime.py", "mapry/go/timeformat.py",
           "mapry/go/validation.py", "mapry/cpp/validation.py",
           "mapry/py/expr.py"],
     [("conversion of formats to Go layouts", "mapry/go/timeformat.py"),
      ("validation of formats", "mapry/strftime.py")],
     "explicit enumeration of formats x moments against a calendar written "
     "for the checks, on the real generated code of the three languages",
     "Exhaustive within the alphabet of directives and separators; %l with "
     "one-digit hours is left out since the platforms disagree.")
prop("P18", "Durations are read and written exactly in all the languages",
     "Every ISO 8601 duration within the documented range of a language "
     "parses to exactly the time span it denotes, and is serialized to a text "
     "which denotes the same time span. Every other text is rejected with an "
     "error, without a crash or a wrong value.",
     ["inputs"],
     "all combinations of up to three of the seven components (four in "
     "thorough) over boundary numbers and fractions, both signs, the limits "
     "of 64-bit nanoseconds and of Python's timedelta, and every text one "
     "edit away from eight durations",
     "The generated tests of durations use about a dozen values in all and "
     "none near the limits.",
     [PY_PARSE, PY_SER, GO_PARSE, GO_SER, CPP],
     [("duration parsing and formatting in Python", PY_PARSE),
      ("duration parsing and formatting in Go", GO_PARSE),
      ("duration parsing and formatting in C++", CPP)],
     "explicit enumeration of texts against exact rational arithmetic, on "
     "the real generated code of the three languages",
     "Exhaustive within the alphabet. C++ conversions out of the range of "
     "long are left unspecified.")
prop("P20", "An instance registered under another identifier is never serialized",
     "If an instance in a registry of an object graph carries an identifier "
     "other than the one it is registered under, serialization fails in "
     "Python, Go and C++. If all the identifiers agree, it does not.",
     ["inputs", "histories", "programs"],
     "all schemas with one reference (two in thorough), all valid documents "
     "within 1 (2) deviations, and every renaming of one instance",
     "The tests never rename an instance.", [PY_SER, GO_SER, CPP],
     [("comparison of identifiers when serializing", PY_SER)],
     "explicit enumeration of documents x renamings, on the real generated "
     "code of the three languages",
     "Exhaustive within the bound.")
prop("P21", "Error containers keep the first errors up to their cap, in order",
     "The generated error containers hold the errors added, in order, until "
     "the cap is reached, and ignore the further ones; they report full and "
     "empty accordingly, and two containers are independent. A cap of zero "
     "means no limit in Go and a full container in Python and C++.",
     ["histories", "programs"],
     "all sequences of up to 5 (7 in thorough) additions to two containers "
     "with caps 0 to 5",
     "The tests do not exercise the containers apart from parsing.",
     ["mapry/py/generate/parse.py", "mapry/go/generate/parse.py",
      "mapry/cpp/generate/parse_impl.py"],
     [("error container in Python", "mapry/py/generate/parse.py"),
      ("error container in Go", "mapry/go/generate/parse.py"),
      ("error container in C++", "mapry/cpp/generate/parse_impl.py")],
     "explicit-state exploration of all operation sequences up to a depth "
     "against a list with a cap, replayed on the real generated code",
     "Exhaustive up to the depth.")

prop("P12", "Accepted names always give code that compiles and works",
     "For every assignment of names to the graph, classes, plurals, embeds and "
     "properties, each language generator either refuses the schema with a "
     "report or gives code that compiles (loads in Python) and round-trips the "
     "documents. Keywords, names used by the generated code, and names that "
     "differ only in case or underscores are no exception.",
     ["inputs", "programs"],
     "every word of a list per language (all keywords, all identifiers of the "
     "generated code, modules and types: 185 in Python, 220 in Go, 358 in C++) "
     "in seven roles, and all ordered pairs of similar names in nine pairs of "
     "roles",
     "The tests know about a handful of names; a collision needs a "
     "particular name at a particular place.",
     ["mapry/naming.py", "mapry/py/validation.py", "mapry/go/validation.py",
      "mapry/cpp/validation.py", PY_PARSE, GO_PARSE, CPP],
     [("names in Python", "mapry/py/naming.py"),
      ("names in C++", "mapry/cpp/naming.py"),
      ("camel case and plurals", "mapry/naming.py"),
      ("conflicts and keywords", "mapry/cpp/validation.py")],
     "explicit enumeration of names x roles, compiled and run on documents "
     "against a reference interpreter",
     "Exhaustive over the word lists; in quick the names of the graph and the "
     "pairs are fewer in C++.")

prop("P13", "Schemas are accepted exactly when valid, errors point to the cause",
     "For every JSON value given as a schema, mapry accepts it exactly if it "
     "follows the documented structure and rules (names, types, bounds, "
     "patterns, formats, sizes, uniqueness), and then holds exactly what the "
     "schema says, in its order. Otherwise it raises a schema error, and no "
     "other exception, that names a violated place and, once the structure is "
     "right, all of the violated places.",
     ["inputs"],
     "all single edits (19 values, deletion, addition, reordering, "
     "duplication at every node) of three schemas, thousands of type "
     "definitions in four positions, all pairs of renamings of 17 places, and "
     "all settings from a list, each as a file and as a mapping",
     "The tests have one schema per kind of error; the rules interact.",
     ["mapry/validation.py", "mapry/schemas.py", "mapry/parse.py",
      "mapry/strftime.py"],
     [("structure", "mapry/schemas.py"), ("rules", "mapry/validation.py"),
      ("parsing", "mapry/parse.py")],
     "explicit enumeration of edited schemas against an independent reference "
     "validator, on the real validation and parsing",
     "Exhaustive over the edits; in quick the pairs of names are fewer.")

prop("P14", "Each language refuses exactly the schemas it can not express",
     "For every valid schema, the validation of a language reports an error "
     "exactly if two of its identifiers derived from the names coincide within "
     "their scope, an identifier is a keyword or reserved for class identifiers, "
     "embeds contain themselves by value where the language can not have that, "
     "or Go or C++ can not hold a format, a bound or a size. Every conflict is reported with a message at a place involved, and "
     "nothing else.",
     ["inputs"],
     "all single renamings of 17 places to 56 names (keywords, variants in "
     "case and underscores), all pairs of renamings to 20 of them (to all of "
     "them in thorough), and all graphs of nestings of three embeds with up to "
     "4 edges (all 19683 in thorough), and bounds and sizes about the limits "
     "of 64 bits in all the places, times three languages",
     "The tests have one schema per kind of conflict; conflicts depend on "
     "pairs of names over all the composites and on cycles of any length.",
     ["mapry/py/validation.py", "mapry/go/validation.py",
      "mapry/cpp/validation.py", "mapry/naming.py"],
     [("validation in Python", "mapry/py/validation.py"),
      ("validation in Go", "mapry/go/validation.py"),
      ("validation in C++", "mapry/cpp/validation.py")],
     "explicit enumeration of schemas against an independent reference model "
     "of the identifiers, on the real validation",
     "Exhaustive over the names and nestings. Formats are explored by P17, "
     "the meaning of refusals by P12.")

prop("P15", "The command line generates all the files, or fails and says why",
     "For every state of the schema file and of the output directory, the "
     "command of a language either exits with 0 and leaves exactly its "
     "documented files, with contents that depend on the schema only, "
     "overwriting earlier ones and touching nothing else. Or it fails with a "
     "diagnosis (the location for broken JSON, the place for invalid schemas) "
     "and, unless a write failed, without changing any file.",
     ["inputs", "histories", "fault_sequences"],
     "17 states of the schema x 8 states of the output directory x 3 "
     "languages, all histories of up to 3 (4 in thorough) of nine runs into "
     "one directory, a fault at every file and pair of files, every prefix, "
     "deletion and substitution at each position of a schema text, all "
     "subsets of arguments, five locales",
     "The tests run the generators on valid schemas into fresh directories.",
     ["mapry/main.py", "mapry/parse.py", "mapry/__main__.py"],
     [("command line", "mapry/main.py"), ("loading of schemas",
                                          "mapry/parse.py")],
     "explicit exploration of all file states, run histories and write faults "
     "on the real command line",
     "Exhaustive over the listed states, histories and edits.")
prop("P16", "Generated code depends on nothing but the content of the schema",
     "For every valid schema, the generated files are the same byte for byte in "
     "every process, hash seed, locale, time zone, working directory, place of "
     "the schema and output, and after any other generations in the same "
     "process. They are the same for every text of the schema that means the "
     "same: whitespace, escapes, order of the sections and settings.",
     ["inputs", "histories", "configurations"],
     "the corpus of schemas x 3 languages x 6 environments with different "
     "orders of generation, and nine texts of every other schema (of all in "
     "thorough)",
     "The tests run in one process with one seed and compare with stored "
     "text for a few schemas.",
     ["mapry/main.py", "mapry/parse.py", PY_PARSE, GO_PARSE, CPP],
     [("generators", "mapry/main.py"), ("order of items", "mapry/parse.py")],
     "explicit enumeration of schemas x environments x histories of "
     "generations, compared byte by byte",
     "Exhaustive over the corpus and the environments listed.")
prop("P11", "What one language serializes, the others parse to the same graph",
     "For every valid schema and every object graph that a document allowed by "
     "the schema in Python, Go and C++, with no number that 64-bit floating "
     "point rounds, describes, the JSON value which the "
     "generated code of one language serializes is parsed by the generated "
     "code of each other language without errors. The parsed graph has the "
     "same instances, identifiers, references and property values as the "
     "original.",
     ["inputs", "configurations"],
     "all ordered pairs of languages x the documents of the schemas of the "
     "corpus with at most one deviation from a regular document (two in "
     "thorough) that are valid in all three languages",
     "No test runs the generated code of two languages on each other's "
     "output.",
     [PY_PARSE, "mapry/py/generate/tojsonable.py", GO_PARSE,
      "mapry/go/generate/tojsonable.py", CPP],
     [("Python serialization", "mapry/py/generate/tojsonable.py"),
      ("Go serialization", "mapry/go/generate/tojsonable.py"),
      ("C++ serialization", CPP)],
     "explicit enumeration of documents, run through the generated code of "
     "the three languages pairwise, compared with a reference interpreter",
     "Exhaustive within the deviation bound over the corpus of schemas.")
prop("P22", "Texts of the schema are data in the generated code, never code",
     "JSON names, patterns, identifier patterns and formats with any "
     "characters that mean something to a language - quotes, braces, escapes, "
     "comments, directives, line ends - give code that compiles and that reads "
     "and writes exactly these texts. Descriptions with such characters change "
     "nothing but comments and docstrings, and appear there completely.",
     ["inputs", "configurations"],
     "all sequences of one or two of 40 fragments (of 15 for pairs in C++ and "
     "Go in quick) in every kind of text, in graphs, classes and embeds, x 3 "
     "languages, with the documents around each text",
     "The tests use a few texts without special characters.",
     ["mapry/py/generate/__init__.py", "mapry/go/generate/__init__.py",
      "mapry/cpp/generate/__init__.py", PY_PARSE, GO_PARSE, CPP],
     [("literals and comments in Go", "mapry/go/generate/__init__.py"),
      ("literals and comments in C++", "mapry/cpp/generate/__init__.py"),
      ("docstrings", "mapry/py/generate/__init__.py")],
     "explicit enumeration of texts x positions x documents, run through the "
     "generated code; comparison of the code without comments",
     "Exhaustive up to the length over the alphabet of fragments. Zeros and "
     "byte order marks are not in the alphabet.")
prop("P23", "Settings change the representation they name and nothing else",
     "Every combination of the settings of Python and C++ (types of paths, "
     "optional values, time zones, date/time library) that the schema allows "
     "gives code that loads or compiles and that behaves as documented. So "
     "does every module, package and namespace that the command line accepts; "
     "keywords and names which would break the code are reported. The "
     "indention changes only how far the lines of all files are indented.",
     ["configurations", "inputs"],
     "all 16 combinations of settings x schemas x documents with at most one "
     "deviation, and every word of the languages and of the generated code as "
     "a module, package or namespace (a part of the C++ words in quick), and "
     "ten indentions of all the schemas of the corpus in Python and C++",
     "The tests compile a few schemas under a single combination each and "
     "never use keywords as names of modules.",
     ["mapry/schemas.py", "mapry/py/validation.py", "mapry/go/validation.py",
      "mapry/cpp/validation.py", "mapry/py/generate/__init__.py",
      "mapry/cpp/generate/__init__.py", CPP],
     [("representation of types in C++", "mapry/cpp/generate/__init__.py"),
      ("representation of types in Python", "mapry/py/generate/__init__.py")],
     "explicit enumeration of settings and names x documents, run through the "
     "generated code and compared with a reference interpreter",
     "Exhaustive over the combinations and the listed names.")

prop("P24", "Patterns mean the same in Python, Go and C++",
     "For every pattern of strings, paths and identifiers, the generated code "
     "accepts a text which the pattern matches as a whole, and rejects a text "
     "in which it matches nowhere, alike in Python, Go and C++. A language "
     "which can not express a pattern refuses the schema with a report at the "
     "place of the pattern instead of generating code that fails or misreads "
     "it.",
     ["inputs", "programs"],
     "1500 patterns (all atoms of a list of 200 constructs in four places, all "
     "pairs of 26 atoms; in thorough all pairs of 80 and all triples of 26) in "
     "strings, paths and identifiers x 403 texts",
     "The tests use a few patterns with a text or two each.",
     [PY_PARSE, GO_PARSE, CPP, "mapry/parse.py"],
     [("matching in Python", PY_PARSE), ("matching in Go", GO_PARSE),
      ("matching in C++", CPP)],
     "explicit enumeration of patterns x texts, run through the generated code "
     "of the three languages",
     "Exhaustive within the atoms and texts. Texts with a partial match are "
     "open; so are non-ASCII texts under short-hands such as \\\\w.")

prop("P25", "Instances made by hand are complete, independent, typed as declared",
     "In Python, every constructor takes the required and the optional "
     "arguments under the names of the properties, keeps exactly the given "
     "values (also falsy ones), leaves the other optional attributes None and "
     "gives each graph registries of its own; the annotations include the "
     "values of the type of a property and nothing else, and a graph made by "
     "hand is serialized as the equal parsed one. In C++, a new structure is "
     "determined: numbers are zero, texts and containers empty, optional "
     "values unset, references null.",
     ["inputs", "programs"],
     "the corpus; all subsets of the optional arguments (all pairs beyond six) "
     "in three styles of calls, with the values of all valid documents that "
     "deviate from a base in one place, and all falsy values of a type; all "
     "structures in C++ over three patterns of garbage in memory",
     "The tests compare the text of the types with stored text and never "
     "call a constructor.",
     [PY_TYPES, CPP_TYPES],
     [("constructors and annotations", PY_TYPES),
      ("default values of fields", CPP_TYPES)],
     "explicit enumeration of constructor calls and structures on the real "
     "generated code, against a model of the attributes",
     "Exhaustive within the corpus and the alphabets.")

prop("P27", "The tests generated with Go code compile and pass",
     "For every valid schema, the Go package which mapry generates comes with "
     "tests which compile together with the package and which all pass.",
     ["programs"],
     "the corpus and 33 combinations of package names and schemas",
     "The tests compare the generated tests with stored text and do not run "
     "them.",
     [GO_PTEST, GO_STEST],
     [("examples of parsing", GO_PTEST), ("examples of serializing", GO_STEST)],
     "explicit enumeration of schemas; the generated tests are type-checked "
     "and run",
     "Exhaustive within the corpus. Two examples with outdated messages are a "
     "known finding.")

prop("P28", "Messages say what was expected and what was found",
     "When a document violates the schema, the message of each error that the "
     "generated Python, Go and C++ report tells the cause: for a missing "
     "property its JSON name, for a bound or a size the limit and the actual "
     "number, for a pattern or a format the pattern or format and the text, "
     "for a reference the class and the identifier, for a wrong kind of value "
     "a text that differs from kind to kind. Texts with characters special to "
     "formatting functions, as %, {} or quotes, are rendered literally.",
     ["inputs", "programs"],
     "all documents with a single violation, one place changed, of the schemas "
     "of the corpus, of 10 further patterns and 10 further names with special "
     "characters",
     "The tests compare a few messages per kind of type with stored text.",
     [PY_PARSE, GO_PARSE, CPP],
     [("messages in Python", PY_PARSE), ("messages in Go", GO_PARSE),
      ("messages in C++", CPP)],
     "explicit enumeration of invalid documents, run through the generated "
     "code; messages judged against the cause found by a reference model",
     "Exhaustive within the alphabets, one violation at a time. Wording is "
     "free; Go may give its own layout instead of the format, and C++ may name "
     "a kind instead of a fractional number.")

prop("P29", "Generated Python agrees with its annotations and its examples",
     "For every valid schema and all settings, the modules of the generated "
     "Python package load, every name which the code or an annotation uses is "
     "defined or imported, all assignments, calls and returned values agree "
     "with the annotations (under mypy --strict, save for the empty shells "
     "made during parsing, which are None on purpose), and every example in a "
     "docstring gives the value which it shows.",
     ["programs", "configurations"],
     "the corpus, the corpus under settings in turns, and all containers of "
     "containers of each type, required and optional, in the graph, classes "
     "and embeds, under all settings",
     "The tests compare the generated text with stored text; mypy and doctest "
     "are only run by hand, on a few schemas.",
     [PY_TYPES, PY_PARSE, "mapry/py/generate/tojsonable.py",
      "mapry/py/generate/parse.py", "mapry/py/expr.py"],
     [("imports and annotations of parsing", PY_PARSE),
      ("annotated classes", PY_TYPES)],
     "explicit enumeration of schemas and settings; every generated package "
     "is loaded, its examples run and its annotations checked",
     "Exhaustive within the corpus. An example may print an equal value in "
     "another way.")

prop("P30", "Single classes and embeds are parsed and written as within graphs",
     "The functions for a single class or embeddable structure, in Python, Go "
     "and C++, given the registries of a parsed graph, report for every value "
     "exactly the errors which the value gives within a graph, under the "
     "reference which the caller passes and up to the cap of the errors. "
     "Without errors they give the instance with the value of each property, "
     "references to the very instances of the registries and, in Python and "
     "Go, the passed identifier, and serializing that instance gives the "
     "value back.",
     ["programs", "inputs"],
     "every class and embed of the corpus, and all the values of the bounded "
     "space of documents for it",
     "The tests parse whole graphs and only a few documents; the functions "
     "for parts are part of the interface, but never called on their own.",
     [PY_PARSE, "mapry/py/generate/tojsonable.py",
      "mapry/go/generate/fromjsonable.py", "mapry/go/generate/tojsonable.py",
      "mapry/cpp/generate/jsoncpp_impl.py",
      "mapry/cpp/generate/jsoncpp_header.py", "mapry/__init__.py"],
     [("Python functions of composites", PY_PARSE),
      ("Go functions of composites", "mapry/go/generate/fromjsonable.py"),
      ("C++ functions of composites", "mapry/cpp/generate/jsoncpp_impl.py")],
     "explicit enumeration of the values of each composite, run by the "
     "generated functions of the composite and compared with the reference "
     "model",
     "Exhaustive up to one deviation (two when thorough and small) from a "
     "valid value. The graph which holds the registries is valid.")

prop("P31", "Generated C++ has no undefined behaviour and reads no stale memory",
     "For every valid schema and all settings of C++, parsing any JSON value "
     "as the graph, whether it is accepted or not, and serializing any graph, "
     "whether that succeeds or throws, has no undefined behaviour: no access "
     "outside of an object or after its end, no overflow, no invalid "
     "conversion. The outcome does not depend on memory which has not been "
     "initialized.",
     ["programs", "inputs", "configurations"],
     "the bare types, the structures and the topologies of the corpus, with "
     "the settings of C++ in turns, and all documents of the bounded space, "
     "with instances under other identifiers",
     "The tests compile the code without sanitizers and parse a few documents.",
     ["mapry/cpp/generate/jsoncpp_impl.py",
      "mapry/cpp/generate/types_header.py",
      "mapry/cpp/generate/parse_impl.py"],
     [("parsing and serializing", "mapry/cpp/generate/jsoncpp_impl.py"),
      ("defaults of the fields", "mapry/cpp/generate/types_header.py")],
     "explicit enumeration of schemas, settings and documents; every document "
     "runs in a program with the address and undefined behaviour sanitizers "
     "and a pattern in uninitialized memory, and in one with zeros there",
     "Exhaustive up to one deviation from a valid document. The sanitizers "
     "watch the execution of each document; they do not judge the others. "
     "A field of a structure made by hand is left to P25.")

NOT_APPLICABLE = []


def main():
    with open(str(core.VERIF / "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            mech = []
            for name, where in p["mechanism"]:
                mech.append({"name": name, "where": where})
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": mech}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            for fn in p["files"]:
                assert (core.REPO / fn).exists(), fn
    checks, na = [], list(NOT_APPLICABLE)
    for p in sorted(P, key=lambda p: p["id"]):
        if (core.VERIF / "mc/checks/{}.py".format(p["id"].lower())).exists():
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check " + p["id"],
                "thorough_cmd": "./check {} thorough".format(p["id"]),
                "technique": p["technique"], "level": "model_checking",
                "level_note": p["note"]})
        else:
            na.append({"property": p["id"],
                       "reason": "no check has been built yet"})
    doc = {"version": 1, "setup_cmd": "./setup", "checks": checks,
           "not_applicable": na}
    (core.VERIF / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")


if __name__ == "__main__":
    main()
