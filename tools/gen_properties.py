#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})
PA, GR, PR, LIB, CMD, ST, GEN, AT, AG, IAD, IA = ("src/parser.rs", "src/grammar/dot.pest", "src/printer.rs", "src/lib.rs", "src/cmd.rs",
   "dot-structures/src/lib.rs", "dot-generator/src/lib.rs", "src/attributes/mod.rs", "src/attributes/generate.rs", "into-attr-derive/src/lib.rs", "into-attr/src/lib.rs")

p("C01", "Parsing is total: every text gives Ok or Err, never a crash",
  "Parsing any UTF-8 text, well formed or not, returns either a graph or an error message. It never panics, overflows an integer, indexes out of bounds or reaches a branch declared unreachable.",
  ["inputs"], "every UTF-8 string; decided for every byte string that fits the stated windows (free bytes at the start of the document and at every syntactic position of a document)",
  "The tests parse a few dozen well-formed documents and not one malformed or non-ASCII one; the panicking branches of the tree walk are never approached.",
  [PA, GR], [("grammar and pair walk agree on shape", "src/parser.rs process_*"), ("unwrap/unreachable on pairs", "src/parser.rs:23,48,72,141,183")], ["parse() result"])
p("C02", "A printed graph parses back to the same graph",
  "Any graph value whose identifiers are legal DOT identifiers in their place (no bare keywords; names for nodes, ports and attributes; a pair for two edge ends and a chain for more; compass points among the ten DOT names), printed with the default context, is accepted by the parser and yields an equal graph: same kind, strictness, identifiers, statements, order, ports and attributes, with anonymous identifiers staying anonymous.",
  ["inputs"], "every graph value: every statement kind, nesting, identifier kind and identifier text (within the stated sizes)",
  "No test composes printing and parsing at all; each is compared with hand-written literals for a handful of graphs.",
  [PR, PA, GR, ST], [("DotPrinter impls", "src/printer.rs:195-440"), ("process_*", "src/parser.rs")], ["parse(print(g)) == g"])
p("C03", "Formatting options change layout only, never meaning",
  "Whatever combination of printer options is set through the public builder (inline output, semicolons, multi-line attributes with or without commas, indent step, inline size, empty or white-space line separator), the printed text parses to the same graph as the value that was printed.",
  ["inputs", "configurations"], "every graph value x every combination of printer options (within the stated sizes)",
  "The option tests pin one output string per option on one graph whose statements all happen to end in a bracket or brace; combinations are hardly tried.",
  [PR, PA, GR], [("PrinterContext builder", "src/printer.rs:84-145"), ("separator choice", "src/printer.rs:223-262,352-358")], ["parse(print(g, ctx)) == g"])
p("C04", "Parse, print, parse is stable for every accepted text",
  "For every text the parser accepts, printing the resulting graph and parsing that output gives the same graph again, and printing it a second time gives the identical text.",
  ["inputs"], "every accepted text within the stated windows",
  "No test prints a parsed graph.", [PA, GR, PR],
  [("verbatim identifier capture", "src/parser.rs:62-70"), ("verbatim identifier printing", "src/printer.rs:199-206")], ["parse(print(parse(t))) == parse(t)"])
p("C05", "Identifiers are recognised and kept verbatim",
  "A DOT identifier (a name of letters, underscores and digits, a numeral, a quoted string with escapes, or an HTML string with balanced brackets) is taken as one identifier of the right kind whose text is exactly the source text, wherever an identifier may stand. Text that is not an identifier is not accepted in its place.",
  ["inputs"], "every identifier text up to the stated length, over all bytes",
  "The tests have about ten identifiers; digits, signs, escapes, quotes and non-ASCII text are inputs, not a list.",
  [PA, GR], [("id, plain, number, string_qt, html rules", "src/grammar/dot.pest:4-19,26"), ("process_id", "src/parser.rs:62-70")], ["Id kind and text in the parsed graph"])
p("C06", "White space and comments between tokens never matter",
  "Inserting blanks, tabs, line breaks, /* */ comments, // comments or # comments (ended by a line feed, a carriage return or both) between any two tokens of a document does not change the result of parsing it. Inside quoted strings the same characters are ordinary text and are preserved.",
  ["inputs"], "every filler text up to the stated length at every token boundary of the carrier documents",
  "Two tests put fixed comments at three places.", [GR, PA],
  [("WHITESPACE, COMMENT", "src/grammar/dot.pest:1-2"), ("atomic rules", "src/grammar/dot.pest:10-16")], ["parse(with filler) == parse(without)"])
p("C07", "Statement lists are parsed as written: nothing lost, added or reordered",
  "A body is accepted exactly when it is a sequence of node, edge, attribute, default-attribute (graph, node or edge with brackets) and subgraph statements, each with at most one semicolon after it, and the result holds exactly those statements, each of the right kind, in source order, subgraphs nested as written.",
  ["inputs"], "every statement text up to the stated length, and every sequence of statement templates up to the stated length",
  "Each rule is tested on one or two examples; which alternative of the ordered choice wins is decided by all inputs that share a prefix.",
  [PA, GR], [("stmt ordered choice", "src/grammar/dot.pest:35-36"), ("process_body, process_stmt", "src/parser.rs:121-128,190-200")], ["Graph.stmts compared with an independent reference parser"])
p("C08", "The header decides kind, strictness and identifier",
  "A document is accepted exactly when it starts with an optional strict, then graph or digraph (lower-case words of their own), an optional identifier and a braced body; the result is directed exactly for digraph, strict exactly when strict was written, and carries the identifier as written or an anonymous one.",
  ["inputs"], "every header text within the stated window", "Only four header forms are parsed in tests.",
  [PA, GR], [("graph rule", "src/grammar/dot.pest:37-39"), ("process_graph", "src/parser.rs:202-228")], ["Graph variant, strict, id"])
p("C09", "Attribute lists keep every pair, in order, for every separator",
  "Every bracketed attribute list, with pairs separated by commas, semicolons or only blanks, and split over any number of consecutive brackets, yields exactly the written key=value pairs in source order on the statement they follow; an ill-formed list is rejected.",
  ["inputs"], "every attribute list text within the stated window, on nodes, edges and default-attribute statements",
  "Two lists are tested.", [PA, GR], [("attr, attr_list", "src/grammar/dot.pest:27-28"), ("process_attr_list", "src/parser.rs:34-41")], ["attributes of the parsed statement"])
p("C10", "Ports and compass points are told apart as DOT prescribes",
  "After a node identifier, ':x' is a compass direction exactly when x is one of the ten compass names written plainly (unquoted), and otherwise a port name; ':x:c' is port x with direction c, and only a compass name may stand there.",
  ["inputs"], "every port text up to the stated length on nodes and on edge ends",
  "Three port forms are tested; longer names that begin with a compass name are not.", [PA, GR],
  [("port, compass", "src/grammar/dot.pest:22-26"), ("process_port, parse_compass_manually", "src/parser.rs:72-101")], ["NodeId port"])
p("C11", "Edge statements keep all their ends in order",
  "An edge statement with k ends yields an edge with exactly those k ends (nodes with their ports, or subgraphs) in source order, a pair for two and a chain for more, whichever edge operator is written; and the attribute list that follows belongs to the edge.",
  ["inputs"], "every chain up to the stated length, each end a node, a node with port or a subgraph",
  "Chains of two and three plain nodes are tested.", [PA, GR],
  [("edge, edge_tail, vertex", "src/grammar/dot.pest:30-33"), ("process_edge, process_edge_stmt", "src/parser.rs:152-181")], ["Edge.ty and Edge.attributes"])
p("C12", "Truncated or over-long documents are rejected",
  "Cutting a document short before its final closing brace, or adding text that is neither blank nor comment after it, makes parsing fail; an unterminated string, comment, HTML string, bracket or brace is an error and never a shorter graph.",
  ["inputs"], "every cut position of the carrier documents and every trailing text up to the stated length",
  "No test expects a parse error.", [PA, GR], [("SOI/EOI", "src/grammar/dot.pest:39"), ("delimiters", "src/grammar/dot.pest:2,12-14,28,36")], ["parse() is Err"])
p("C13", "A printer context can be reused: printing leaves no trace",
  "Printing the same graph any number of times with one context, or printing other values in between, always gives the text a fresh context with the same options gives. Statements and attribute lists printed on their own repeat in the same way.",
  ["inputs", "histories", "configurations"], "every sequence of prints of every value under every option set (within the stated sizes)",
  "Every test creates a context, prints once and throws the context away.", [PR, LIB],
  [("indent_grow/indent_shrink pairing", "src/printer.rs:155-165"), ("inline_mode/multiline_mode pairing", "src/printer.rs:428-440"), ("is_digraph", "src/printer.rs:303-350")],
  ["text of the second print"], [{"name": "PrinterContext.indent, l_s, is_digraph", "meaning": "mutable printing state", "where": "src/printer.rs:55-80"}])
p("C14", "Internal anonymous identifiers never reach the output",
  "Graphs and subgraphs without an identifier are printed without one whatever internal name they carry, and parsing an anonymous graph or subgraph always produces an anonymous identifier, never a named one.",
  ["inputs"], "every internal name text (within the stated length) and every random draw",
  "One test prints one anonymous subgraph whose internal name is empty.", [PR, PA],
  [("Id::Anonymous printing", "src/printer.rs:203"), ("random anonymous ids", "src/parser.rs:117,219")], ["printed text", "Id variant"])
p("C15", "The edge operator follows the root graph everywhere",
  "Every edge of a directed graph is printed with '->' and every edge of an undirected graph with '--', at any nesting depth, inside edge ends, and whatever was printed before with the same context.",
  ["inputs", "histories"], "every placement of edges up to the stated depth and every previous print", "Only directed graphs with default nesting are printed in tests.",
  [PR], [("is_digraph", "src/printer.rs:311-343,372")], ["operator in the text"])
p("C16", "Layout follows the options exactly",
  "Each statement stands on its own line indented by nesting depth times the indent step, ends in a semicolon exactly when semicolons are on, and multi-line attribute lists put one attribute per line one step deeper; an edge is written on one line exactly when its multi-line text is not longer than the inline size.",
  ["inputs", "configurations"], "every indent step, inline size and option combination on graphs up to the stated depth, compared with an independent layout model",
  "Indent steps 2 and 4 and inline sizes 0 and 90 are tested.", [PR],
  [("indent", "src/printer.rs:147-173"), ("Vec<Attribute>", "src/printer.rs:223-262"), ("Edge::print threshold", "src/printer.rs:428-440")], ["printed text"])
p("C17", "Attribute value printers apply to their attribute and nothing else",
  "A value printer registered for an attribute identifier is called for every attribute with that key, receives the printed value and the current layout, and its result replaces the value; every other attribute prints as if no printer were registered, and the last registration for a key wins.",
  ["inputs", "configurations"], "every key and value text within the stated length, on nodes, edges, graph attributes and statements",
  "One printer on node attributes is tested.", [PR], [("attr_value_printers lookup", "src/printer.rs:208-226")], ["printed text"])
p("C18", "The explicit context constructor means what its arguments say",
  "A context built with the explicit constructor from a semicolon flag, indent step, line separator and inline size prints every graph exactly like a default context with the same four options set through the builder methods.",
  ["inputs", "configurations"], "every argument combination within the stated ranges", "No test uses the constructor.",
  [PR], [("PrinterContext::new", "src/printer.rs:127-145")], ["printed text"])
p("C19", "Typed attributes carry the DOT name and the exact value",
  "Every typed attribute constructor yields the attribute whose key is the Graphviz name of that attribute and whose value is the plain text of the given value; enumerated values print their Graphviz spelling (in quotes where it is a keyword of DOT), and the default of an attribute value type is Graphviz's default for that attribute.",
  ["inputs"], "every constructor; every bool, every integer and string value within the stated ranges, every enumeration value",
  "Five constructors out of about two hundred are tested.", [AT, AG, IAD, IA],
  [("generate_attr!", "src/attributes/generate.rs"), ("IntoAttribute derive", "into-attr-derive/src/lib.rs:17-44")], ["Attribute key and value"])
p("C20", "The construction macros build exactly the documented structures",
  "Every form of the construction macros (id, port, node_id, attr, attrs, node, edge, subgraph, stmt, graph) yields the structure written out by hand with the same kind, identifiers, ports, attributes and statements in argument order, for every content; each argument expression is evaluated exactly once.",
  ["inputs", "programs"], "every macro form; every identifier content within the stated length", "Doc examples cover about half of the forms with constant contents.",
  [GEN], [("macro_rules", "dot-generator/src/lib.rs")], ["constructed value"])
p("C21", "Graph editing and conversions preserve their operands",
  "Appending a statement to a graph or subgraph adds exactly that statement at the end and changes nothing else; converting a component into a statement or edge end wraps it unchanged; choosing default attributes by name is case-insensitive for graph, node and edge. Values are equal exactly when all their parts are, equal values hash equally, and clones are equal. The display form of an identifier is the mark of its kind followed by its text.",
  ["inputs", "histories"], "every component value and every sequence of appends within the stated sizes", "The structures crate has no tests.",
  [ST], [("add_stmt", "dot-structures/src/lib.rs:180-205"), ("From impls", "dot-structures/src/lib.rs:118-177"), ("GraphAttributes::new", "dot-structures/src/lib.rs:72-81")], ["resulting value"])
p("C22", "Command-line arguments are the ones Graphviz documents",
  "Each layout and output format is passed to dot as -K or -T with the name Graphviz gives it, an output path as -o followed by the path, and a custom argument verbatim, for every value.",
  ["inputs"], "every layout, every format, every path and custom text within the stated length", "Only -Tsvg and -o are run.",
  [CMD], [("CommandArg::prepare", "src/cmd.rs:112-133")], ["argv of the dot process"])
p("C23", "Running dot passes the text and arguments on and reports its outcome",
  "Executing a graph or DOT text starts dot once, with the given arguments in order followed by the path of a file that holds exactly the DOT text; the file is unchanged until dot has ended, and dot gets the caller's environment and directory. The call succeeds with dot's standard output exactly when dot exits with status zero and otherwise fails with dot's standard error as message.",
  ["inputs", "fault_sequences"], "every argument list, text, exit status, signal and output within the stated bounds",
  "The tests run dot successfully, and once with a failing output path.", [CMD, LIB],
  [("exec, do_exec", "src/cmd.rs:54-78")], ["argv, file content and result, with the operating system replaced by a model"])
p("C24", "Running dot never leaves a temporary file behind and never panics",
  "Whatever fails while a graph is executed (an argument that cannot be passed, creating or writing the temporary file, making pipes, starting dot, waiting for it, dot's exit, removing the file), the call returns an error of the failing call's kind instead of panicking, dot never runs on incomplete input, and the temporary file has been removed or its removal attempted. No descriptor stays open and no child unwaited; interrupted calls and short writes are not failures.",
  ["fault_sequences", "inputs"], "every single fault, and every combination of faults, at every system call within the stated bounds", "No test injects a fault.",
  [CMD], [("temp_file, into_temp_path, close", "src/cmd.rs:54-86")], ["file system model after the call"])
p("C25", "Typed attributes are legal DOT in a printed graph",
  "Every typed attribute whose value is a number, a boolean, a colour or a value of an enumeration, and every default of such a type, is legal DOT by itself (a name that is no keyword, a numeral or a quoted string), so a graph that carries it anywhere prints to text that parses back to an equal graph.",
  ["inputs"], "every constructor of these types, every value of every enumeration, every colour, every boolean, integers and floats within the stated ranges, on nodes, edges, graph defaults and as a statement",
  "No test prints a typed attribute and parses the text.", [AT, AG, IAD, PR, PA],
  [("IntoAttribute derive", "into-attr-derive/src/lib.rs:17-48"), ("margin_separate", "src/attributes/mod.rs:316-323"), ("Attribute printing", "src/printer.rs:241-260")], ["printed text", "parse(print(g)) == g"])
p("C26", "Parsing depends on the text alone",
  "Parsing a text gives the same result whatever was parsed or printed before in the same process, successfully or not: a graph that is equal up to the internal names of anonymous parts, or the same error message.",
  ["inputs", "histories"], "every text within the stated windows after every stated history: itself, texts that differ in a few bytes, unrelated and broken ones, hundreds of others",
  "Each test parses its texts once, and none compares a result with an earlier one.", [PA, LIB],
  [("parse", "src/parser.rs:18-23"), ("process_*", "src/parser.rs")], ["results of repeated parse() calls"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
