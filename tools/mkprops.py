"""Writes properties.jsonl (kept as code so that it stays valid against the schema)."""
import json, pathlib

T = "pycep/transformer.py"; G = "pycep/bicep.lark"; F = "pycep/rules/functions.py"; D = "pycep/rules/decorators.py"
M = "pycep/main.py"; U = "pycep/utils.py"; V = "pycep/validator.py"; MO = "pycep/models.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Every declaration is reported exactly once, under its kind and name",
 "For a well-formed Bicep document the result lists every declaration of the document exactly once, in the section of its kind and under its declared name, and lists nothing the document does not declare; sections without a declaration are absent. "
 "The target scope is the declared one of the four legal scopes and otherwise resourceGroup. "
 "No well-formed document is rejected because of which declarations it combines, their number, their order or their names.",
 ["inputs"], "all well-formed documents: any number, mix and order of targetScope, import (named, aliased, wildcard, namespace), extension, metadata, param, var, output, resource (nested ones too), module, type and func declarations, with any legal identifiers incl. ones that look like keywords",
 "The tests parse about sixty fixed files, each built around one kind of element; combinations, orders, name choices and counts are unbounded.",
 [G, T], [("start: merges all elements into sections", T+":start"), ("element alternatives", G+":element"), ("collected imports and child resources", T+":custom_import, process_child_resource")],
 ["result of parse()"], [("imports, child_resources", "elements collected on the side during one parse", T+":BicepToJson.__init__")])

prop("C02", "Literal values arrive unchanged",
 "Strings, multi-line strings, integers, booleans, null, arrays and objects written in a document appear in the result with the same content: single-quoted strings verbatim between their quotes with escapes and interpolations kept as written, multi-line strings verbatim apart from one line break directly after the opening quotes, integers exactly, arrays with all items in source order and objects with all keys (quoted keys keep their quotes) in source order. "
 "A literal ends where it ends in the source: it never swallows or loses neighbouring text, whatever characters, escapes, interpolations, quotes, brackets or comment markers it contains.",
 ["inputs"], "all literal values, of any length, nesting and character content, in every position a value can take",
 "Tests cover a handful of literal strings; the string terminals are regular expressions whose mistakes only show on particular character sequences or neighbours.",
 [G, U, T], [("string terminals", G+":QUOTED_INTERPOLATION, MULTI_LINE_STRING, QUOTED_STRING"), ("unquoting", U+":transform_string_token, sanitize_multi_line_string_token"), ("array/object/pair/int/null/bool", T+":array, object, pair, int_type")],
 ["values in the result of parse()"])

prop("C03", "References and string literals stay distinguishable everywhere",
 "Wherever a value can occur, an identifier that refers to something else is reported as the dedicated element type for references, equal to its name, and a string literal with the same characters is reported as a plain string, so that a user can always tell the two apart. "
 "This holds at every nesting level and for every position (defaults, values, array items, object values, operands, accessors, arguments, conditions, loop collections, decorator arguments, dependencies added for nested resources).",
 ["inputs"], "all values at all positions, with literals that look like identifiers and identifiers that look like keywords, functions or types",
 "The example results are compared as JSON, where the element type equals a plain string, so no example test can see the difference; only two positions are asserted explicitly.",
 [U, MO, T], [("token type decides", U+":transform_string_token"), ("element type", MO+":BicepElement")], ["types of the leaves of parse() results"])

prop("C04", "Operator expressions keep their operands, order and grouping",
 "For every expression built from comparison, equality, logical, coalesce, conditional, arithmetic and unary operators, the result is a tree naming each operator as written with its operands in source order; no operator or operand is lost, duplicated or exchanged. "
 "Parentheses in the source decide the grouping exactly and redundant ones leave no trace; where the source has none, an operator takes everything to its right as its last operand. "
 "An expression has the same tree in every position it can occur in.",
 ["inputs"], "all operator expressions of any length, depth and parenthesisation, over all operand kinds and in all positions",
 "One small example per operator is tested; grouping is produced by conflict resolution of an ambiguous grammar, which depends on which operators and operands meet.",
 [G, T], [("operator rules and shift preference", G+":operator"), ("operator callbacks", T+":add, conditional, not_op, minus, coalesce, ...")], ["operator nodes in the result of parse()"])

prop("C05", "Function calls keep name, namespace meaning and every argument",
 "A call of a known built-in function, with any number of arguments the function takes, is reported with that function's type and every argument under the parameter its position stands for, omitted optional parameters being null; calling it through its namespace (sys. or az.) gives the same result. "
 "A call of any other function is reported under the name as written with all arguments numbered in order, and passing any value, however small, empty or deeply nested, never drops or shifts an argument.",
 ["inputs"], "all functions known to the parser and unknown ones, all accepted argument counts and argument values, in all positions",
 "Each built-in has one or two example calls with typical arguments; falsy arguments, other counts, namespaces and nesting are not sampled.",
 [F, G, T], [("function table and builders", F+":FUNCTIONS"), ("call rule and dispatch", G+":function; "+T+":function")], ["function nodes in the result of parse()"])

prop("C06", "Accessor chains keep every step in order",
 "Property, index, nested-resource and resource-function accessors are reported with their base, step and arguments so that reading the tree left to right gives the source chain: no step, index or argument is lost, duplicated or reordered. "
 "An index or resource-function call applies to the element directly before it, other accessors take the rest of the chain; safe-dereference and non-null marks are accepted and change nothing else.",
 ["inputs"], "all chains of accessors of any length, mixed with calls, parentheses, operators and arguments of any kind",
 "Tests cover chains of a few steps; mixed chains depend on grammar conflict resolution and lexer look-ahead.",
 [G, T], [("accessor rules", G+":operator_accessor"), ("accessor callbacks", T+":index_accessor, function_accessor, nested_resource_accessor, property_accessor")], ["accessor nodes in the result of parse()"])

prop("C07", "Decorators stay attached to their own declaration, in order, with their argument",
 "Each declaration carries exactly the decorators written in front of it, in source order and never those of another declaration, whatever comments, blank lines or layout separate them. "
 "Known decorators (with or without the sys. namespace) are reported under their type with their argument exactly as given, including negative and zero limits and empty values; unknown ones under the name as written.",
 ["inputs"], "all sequences of decorators of any length on all decoratable declarations, any argument values, any separation",
 "Tests decorate a few params, with typical arguments and separations.",
 [D, G, T], [("decorator table", D+":DECORATORS"), ("decorator rules", G+":decorator, decorators"), ("attachment", T+":decorator, param, var, ...")], ["decorators attribute in the result of parse()"])

prop("C08", "Data types, custom types and function signatures are reported as declared",
 "The type of every parameter, typed variable, output, function argument and function result is reported as declared: plain names by name, each array suffix as one array level around its item type, unions with all members in order, to any nesting; a nullable mark is accepted and leaves the type unchanged. "
 "Custom types and user-defined functions keep their full definition: members of a union in order, object shapes key by key, arguments by name in declaration order, result type and body expression.",
 ["inputs"], "all type expressions of any nesting in every position a type can take, all signatures of any length",
 "Tests show single examples of arrays and unions.",
 [G, T], [("type rules", G+":data_type, base_type, union_type, array_suffix, type_value, _func_statement"), ("type callbacks", T+":data_type, union_type, type_value, custom_func, custom_type")], ["type/args/expression attributes in the result of parse()"])

prop("C09", "Resources keep type, version, existing flag and body; nested ones are flattened",
 "Every resource is reported with the type and API version of its reference split at the version mark, whether it is existing, and its complete body. "
 "A resource nested in another at any depth, also inside a conditional or looped parent, is reported as a resource of its own, named by the chain of its ancestors joined with a double underscore, typed by the joined type path, with its own API version or else the one it inherits, and depending on its direct parent; it is no longer part of the parent's body, which otherwise stays complete.",
 ["inputs"], "all resource declarations: any type path and version, any body (object, condition, loop), nesting to any depth at any place of the body",
 "Tests contain four files with nested resources, in plain bodies only.",
 [T, G], [("type and version split", T+":type_api_pair"), ("flattening", T+":process_child_resource, child_resource"), ("nested rule", G+":child_resource, object")], ["resources section in the result of parse()"],
 [("child_resources", "nested resources collected during one parse", T+":BicepToJson.__init__")])

prop("C10", "Module references are classified and decomposed without loss",
 "Every module reference is reported as exactly one of local path, registry, registry alias, template spec or template spec alias, as its prefix says, with the reference after the prefix in full and its components (registry or alias, path, tag, subscription, resource group, name, version); joined again the components give back the reference. "
 "Only the official public registry and its public alias are flagged public, and a reference that does not have the required form is rejected instead of being reported shortened.",
 ["inputs"], "all reference strings of the five kinds over the characters their components allow, and malformed ones",
 "Tests use eight fixed references.",
 [T], [("patterns", T+":*_PATTERN"), ("classification", T+":module_path")], ["modules section in the result of parse()"])

prop("C11", "Loops, deployment conditions and lambdas are reported completely",
 "A loop is reported with its item variable, its index variable if there is one, the collection expression, its condition or null, and its complete body; a conditional deployment with its condition and body; a lambda with all its variables in order and its body expression. "
 "These parts are the same whatever kind of declaration or body holds them, whatever expressions they consist of, and whatever names the variables have.",
 ["inputs"], "all loops (with and without index, with and without condition, over any collection expression), conditions and lambdas (any number of parameters), in every place they are allowed",
 "Tests show one example of each form with simple names.",
 [G, T], [("loop, condition and lambda rules", G+":loop, deploy_condition, lambda_expression"), ("callbacks", T+":loop, loop_array, loop_array_index, deploy_condition, lambda_expression")], ["loop, condition and lambda nodes in the result of parse()"])

prop("C12", "Line numbers point at the exact source lines and change nothing else",
 "With line numbers requested, every reported declaration, including nested resources, imports and an explicit target scope, carries the 1-based first line (of its first decorator, if any) and last line it occupies in the source; a default target scope carries zeros. "
 "Apart from these two numbers the result is identical to one without line numbers, which contains none.",
 ["inputs", "configurations"], "all well-formed documents, with any blank lines, comments, line endings, multi-line values and positions of the declarations, both settings of the option",
 "Tests compare line numbers for a few files with regular layout.",
 [T, G, M], [("position propagation", M+":Lark(propagate_positions=True)"), ("line attributes", T+":every element callback")], ["__start_line__ and __end_line__ in the result of parse()"])

prop("C13", "The result depends only on the text, not on history or instance",
 "Parsing the same text gives an equal result every time: on a fresh or a long-used parser, before or after other texts, failed parses, tree dumps or rewritten files, in any process and under any hash seed. "
 "A result already returned never changes because of later calls, and changing it in place never affects other results.",
 ["histories", "inputs", "configurations"], "all sequences of parse and tree calls, successful or failing, over any documents on any number of parser instances, with callers modifying returned results in between",
 "Each test makes one call; leaks between calls need particular sequences of calls.",
 [M, T, D, F], [("new transformer per call", M+":BicepParser.parse"), ("builders return new objects", F+", "+D)], ["results of call sequences"],
 [("imports, child_resources", "per-parse accumulators", T+":BicepToJson.__init__"), ("lark parser", "shared by all calls of an instance", M+":BicepParser.__init__")])

prop("C14", "Concurrent use of one parser gives the sequential results",
 "Any number of threads may call one parser, or several parsers with different settings, at the same time; each call returns exactly the result, or fails with exactly the kind of error, that the same call gives when made alone. "
 "This holds for every interleaving, mix of documents and moment at which other calls fail.",
 ["schedules", "inputs"], "all interleavings of concurrent parse and tree calls on shared and separate instances over any mix of valid and invalid documents",
 "The tests are sequential.",
 [M, T], [("per-call transformer and parser state", M+":BicepParser.parse, _create_tree")], ["call and return events of all threads"],
 [("BicepParser instance", "settings and lark parser shared by threads", M+":BicepParser.__init__")])

prop("C15", "The grammar cache never changes what a parser does",
 "A parser built with the grammar cache behaves like one built without it for every document and option: whether the cache is missing, warm, shared with other processes that start or die at the same time, outdated, damaged or truncated, or in a place that cannot be written. "
 "Construction succeeds in all these cases.",
 ["configurations", "crash_points", "fault_sequences", "schedules"], "all states of the cache location, incl. those left by processes interrupted while writing, and concurrent constructions",
 "The tests never look at the cache and run with whatever state the machine has.",
 [M], [("cache option handed to the grammar loader", M+":BicepParser.__init__")], ["parser construction and results in fresh processes with prepared cache directories"])

prop("C16", "Layout, comments and line endings do not change the meaning",
 "Two documents that differ only in white space between tokens, indentation, blank lines, comments of any kind and content, CRLF instead of LF line endings, a missing final line break or redundant parentheses are parsed to the same result apart from line numbers. "
 "This includes comments containing quotes, brackets or code, in every place where a line break or comment is accepted.",
 ["inputs"], "all well-formed documents and all re-layouts of them",
 "Every test file has one layout.",
 [G, V, U], [("ignored tokens and comment runs", G+":%ignore, _CPP_COMMENT_NL, _NEWLINE"), ("multi-line string sanitising", U+":sanitize_multi_line_string_token"), ("quote validation", V)], ["pairs of results of parse()"])

prop("C17", "Text and file input are equivalent and input errors are explicit",
 "Exactly one of text and file must be given: none or both is a type error before anything is read. "
 "A file is read as UTF-8, with or without byte order mark and whatever the locale, and gives the same result as passing its text; an empty text or file is an empty document. "
 "A file that is missing, unreadable or not UTF-8 raises the corresponding error, and invalid quotes are reported as a value error naming the file when a file was given; the file is never modified.",
 ["inputs", "configurations", "fault_sequences"], "all documents incl. non-ASCII ones, all ways of passing them, all locales, all file states",
 "Tests read ASCII files in the locale of the developer.",
 [M, V], [("input selection and reading", M+":_create_tree"), ("validation", V+":is_valid")], ["results and exceptions of parse() and create_tree()"])

prop("C18", "Malformed documents are rejected as a whole, and the parser stays usable",
 "A document that is not well formed - an unclosed or surplus bracket, quote or comment, a single-quoted string that does not end on its line, a missing or stray token, an illegal character, an unknown declaration, a nested resource anywhere but directly in the body of a resource, an illegal target scope, a resource type without version or a malformed module reference - makes the call raise an error; it never yields a result, partial or otherwise, and never an endless wait or a crash of the interpreter. An error about the syntax (other than unbalanced quotes) names the line and column of the first place at which the document cannot go on. "
 "After any number of failed calls the same parser handles the next document as if nothing had happened.",
 ["inputs", "histories"], "all malformed documents obtained by cutting, deleting, inserting or exchanging tokens and characters so that no valid reading remains, and all sequences of such calls",
 "Tests reject two or three fixed inputs.",
 [M, V, G, T], [("grammar and validation", G+"; "+V), ("explicit value errors", T+":scope, module_path, type_api_pair")], ["exceptions raised by parse() and create_tree()"])

prop("C19", "Parsing only computes: nothing in a document is executed, opened or changed",
 "Parsing treats a document purely as data: no content of it, such as file, module or environment references, interpolations or code-like text, makes the parser open, read or write any file, contact anything, start a process, import or evaluate code, print, or change process-wide settings. "
 "The only files touched are the given input file, read once, and the grammar cache while a parser is being constructed.",
 ["inputs"], "all documents, hostile ones included, valid or not",
 "Tests only look at return values.",
 [M, T, F], [("pure builders", F+":load_*"), ("single read of the input", M+":_create_tree")], ["interpreter audit events and process state during calls"])

prop("C20", "Results are plain, self-contained, serialisable data",
 "A result consists only of dictionaries with string keys, lists, strings, integers, booleans and null; it survives JSON, pickling and deep copying unchanged, references no parser internals, contains no internal marker names, and no two places of it share a mutable object. "
 "Every node of a given kind has the fields documented for the kind and no others.",
 ["inputs"], "all results of all well-formed documents with both settings of line numbers",
 "Example tests compare with fixed JSON and cannot see shared objects, token types or unusual shapes elsewhere.",
 [T, F, D, "pycep/typing.py"], [("builders", T+", "+F+", "+D), ("documented shapes", "pycep/typing.py")], ["object graph of the result of parse()"])

prop("C21", "Work stays bounded: no document makes parsing explode",
 "The effort of parsing grows moderately with the length of the document: no document, valid or malformed, however repetitive or cleverly unclosed its quotes, comments, interpolations, brackets and operators are, makes it grow exponentially, and long flat documents of thousands of declarations or items are parsed completely, in time about proportional to their length. "
 "Nesting of at least one hundred levels is handled, and deeper nesting either works or raises an error.",
 ["inputs"], "all documents, pathological repetitions and unclosed constructs included, of growing length and depth",
 "Tests parse short regular files; blow-ups need particular repetitive inputs.",
 [G, M, V], [("string and comment terminals", G+":QUOTED_INTERPOLATION, MULTI_LINE_STRING, _CPP_COMMENT_NL"), ("LALR parser", M+":Lark(parser='lalr')")], ["CPU time of calls in a limited child process"])

prop("C22", "The tree dump shows the same document parsing sees",
 "The tree dump accepts exactly the documents whose syntax parsing accepts and takes the same inputs with the same errors. "
 "It contains every name, literal and operator kind of the document in source order, is the same for equal inputs, and asking for it never changes what parsing returns.",
 ["inputs", "histories"], "all documents, valid and malformed, and all orders of dump and parse calls",
 "One test prints one tree.",
 [M], [("shared tree construction", M+":_create_tree, create_tree")], ["result of create_tree() next to parse()"])

prop("C23", "A declaration means the same whatever surrounds it",
 "Parsing a document made of several declarations gives exactly the union of the results of parsing each declaration alone, with line numbers shifted by its position; reordering the declarations only reorders the sections. "
 "Likewise a value means the same in every position: as a variable value, parameter default, output, array item, object value, argument or parenthesised operand.",
 ["inputs"], "all lists of declarations with distinct names in all orders, and all values in all positions",
 "Tests compare whole files with one fixed composition.",
 [T, G], [("merge of elements", T+":start"), ("one shared value rule", G+":value, value_brackets")], ["results of parse() for parts and wholes"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
if __name__ == "__main__":
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p, s)
        print("schema ok")
    except ImportError: pass
