"""What each check covers, its bounds, and what lies outside them."""
COMMON_ASSUMPTIONS = [
    "the compiler's LLVM IR at -O2 (one module: harness, this repository, pest, tempfile, alloc, core, std; overflow checks on) means what rustc's own code generator makes of it; a sample of the explored paths is replayed on a separate native debug build and must agree byte for byte",
    "the symbolic executor (engine/) and Z3 are correct; violations are reported only after they are reproduced by the native build, the thorough tier re-decides recorded queries with cvc5 and a second Z3",
    "hashing (std's RandomState and SipHash) is abstracted as a constant function, so maps meet every collision but only one iteration order; violations that depend on the order are looked for in up to 12 native replays",
    "floating-point arithmetic, if a change introduces it, is run on the concrete values of a model (path marked not exhaustive when it depends on symbolic bits); a query that Z3 does not answer in 10 s ends its path as not encodable; both are reported (NOT EXHAUSTIVE) and neither happens on the unchanged tree",
    "the clock, process id, environment reads and writes to the standard streams are fixed by the model",
    "memory allocation succeeds; random bytes (names of anonymous identifiers, hash seeds, temporary names) are one fixed sequence, and nothing that is checked depends on their values",
    "pest's stack-depth guard is inactive, single-threaded execution",
]
PARSER_OUT = "Documents with more free bytes than stated or with free bytes at several distant places at once (beyond those stated); identifiers, bodies and nestings larger than stated. The parser is a recursive-descent machine whose state at a token does not depend on what was read before, which is why windows at every syntactic position are the chosen shape, but that is an argument and not part of the check."
PRINT_OUT = "Graph values with more statements, attributes, nesting or identifier bytes than stated, and combinations of more than the stated number of symbolic parts."
PROPS = {}


def p(pid, group, quick, thorough, outside, **kw):
    PROPS[pid] = dict(group=group, bounds={"quick": quick, "thorough": thorough}, outside=outside, **kw)


ORACLE = " Oracle: harness/src/refp.rs, an independent hand-written reference parser of the documented dialect; the library must accept exactly what it accepts and give the same graph."
p("C01", "text",
  "Every UTF-8 string of 0..3 bytes (all values) in each of 22 contexts (the whole document; before, inside and after headers, bodies, strings, HTML strings, comments, attribute lists, ports, edges, subgraphs, numerals); each of 3 documents that use every construct with any one byte replaced by, or any one position filled with, any ASCII byte; each of them cut at any place with any ASCII byte appended; nesting 0..8 with any ASCII byte inside. Every path must end in Ok or Err: any panic, overflow, out-of-bounds or undefined memory access, unreachable or abort on any path is a violation.",
  "the 22 contexts with 4 bytes, a body of 5 ASCII bytes, and the documents with any 2 adjacent bytes replaced.", PARSER_OUT + " Exhaustion of the stack by deep nesting and running time.")
p("C05", "text",
  "Identifier positions: 8 (statement, graph name, subgraph name, attribute key, attribute value, edge end, port, attribute statement). Windows of 1..3 ASCII bytes in all 8 and 4 bytes in two; quoted and HTML strings with 0..4 symbolic ASCII bytes in all 8; 1..4 bytes of any UTF-8 in quoted, HTML, plain and escaped position; 1..3 HTML items with symbolic text; names, numerals, negative numerals and quoted strings of 6..35 symbolic bytes in all 8 positions; 1..5 items out of sign, point, digit, letter, blank." + ORACLE,
  "windows of 5 bytes, quoted and HTML strings of 6 bytes.", PARSER_OUT)
p("C06", "text",
  "Two documents that have every kind of token boundary: at any one boundary any filler (1..3 blanks; /* */ with 0..2 bytes of any UTF-8; // and # comments with 0..2 bytes of any UTF-8 and any of the three line ends; combinations with blanks); any two boundaries up to 3 tokens apart with short symbolic fillers; the same filler at all boundaries; no filler wherever two tokens cannot run together; 0..3 free ASCII bytes between tokens in 5 places against the reference parser; comment and blank characters inside quoted strings between two symbolic bytes. The graph must be the one of the plainly spaced document.",
  "comments of 3..4 ASCII bytes at every boundary, 4 free bytes.", PARSER_OUT)
p("C07", "text",
  "Bodies of 1..4 free ASCII bytes; each of 18 statement forms (symbolic name) followed by 2 free bytes; sequences of 0..2 of the 18 forms with 3 separators; three documents with any byte replaced by, inserted as or deleted from any ASCII byte; nesting to depth 4 in 4 forms with statements before and after; the six keywords followed by 0..2 free bytes and 9 continuations; bodies of 5..24 statements with symbolic names." + ORACLE,
  "sequences of 3 forms, 5 free bytes, statements followed by 3 free bytes, two adjacent bytes replaced.", PARSER_OUT)
p("C08", "text",
  "Headers from parts (strict or not, graph/digraph, 6 kinds of identifier with symbolic bytes, 4 fillers twice, 3 bodies); 0..3 free ASCII bytes at 13 header places; four headers with any one or two adjacent bytes replaced or one inserted; every sequence of 1..4 words out of 9 (keywords, capitalised keywords, names) before a body." + ORACLE,
  "4 free bytes at 5 places.", PARSER_OUT)
p("C09", "text",
  "0..3 free ASCII bytes at 8 places of attribute lists; lists of 0..3 pairs with symbolic keys, 3 kinds of values and 6 separators (including new brackets) on 9 hosts; lists of 4..27 pairs; every sequence of 0..4 of 10 tokens inside brackets." + ORACLE,
  "4 free bytes at 4 places.", PARSER_OUT)
p("C10", "text",
  "1..3 free ASCII bytes at 7 port places; each of the 10 compass names followed by 0..2 free bytes in 5 places; every name of 1..3 bytes as first and as second part of a port; quoted, HTML and numeral ports; fillers around the colons." + ORACLE,
  "4 free bytes at 4 places.", PARSER_OUT)
p("C11", "text",
  "Chains of 2..5 ends, each of 9 forms (plain, with port, with port and compass, quoted, three subgraph forms, ...) with symbolic names, 3 operators, 4 attribute-list tails; chains of 2..21 plain ends; 5 leading subgraphs with 3 operators and 1..2 further ends of 9 forms; 0..3 free ASCII bytes at 8 places of edges." + ORACLE,
  "4 free bytes at 4 places.", PARSER_OUT)
p("C12", "text",
  "Three documents with every construct cut at every place; 4 short documents with symbolic names and text cut at every place; 1..4 free ASCII bytes after 3 complete documents (accepted exactly when blank or comment); 9 opened constructs with 0..3 free bytes and 3 endings, against the reference parser; a second document, brace or word after a complete one.",
  "5 free bytes after a document, 4 inside the opened constructs, one free byte after every cut.", PARSER_OUT)

p("C26", "text",
  "Texts of C01's 22 contexts with 0..2 bytes of any UTF-8, three documents with any one byte replaced or inserted and sequences of two statement forms, each parsed, then 0..1 of 7 other texts, then parsed again; two texts that differ in one ASCII byte in the 22 contexts, or in one byte, beginning or end of a document, the second against the reference parser; the same symbolic names of 2 bytes in two places as two kinds of identifier; 5..257 other texts before; a print in between.",
  "3 bytes with two other texts in between, windows of two bytes and one byte after each other, two documents with two and one bytes replaced.", "Longer histories, other threads.")

GRAPHS = "Graph values are built from 24 statement forms (nodes, ports, all three default-attribute kinds with empty and full lists, attribute statements, pairs and chains over nodes and subgraphs, nested and anonymous subgraphs), names symbolic. "
p("C02", "print",
  GRAPHS + "Identifiers of 6 kinds with 1..2 symbolic bytes (all UTF-8 in strings) in 16 positions; words that begin like keywords; identifiers of 20..95 symbolic bytes; header combinations; every ordered pair of the 24 forms in a body, in a subgraph and inside an edge end that prints on one line; nesting to depth 3 in 4 forms; every compass and port form; 0..11 attributes on 5 hosts; edges around the inline limit.",
  "identifiers of 3 bytes, triples of forms, nesting to depth 4 with every form.", PRINT_OUT,
  assumptions=["legal identifiers: DOT names that are not keywords, numerals, quoted strings without a bare quote, balanced HTML strings; node, port and attribute identifiers are not anonymous; chains have at least three ends; a port has a name or a direction, a plain port name without direction is no compass name"])
p("C03", "print",
  GRAPHS + "24 forms followed by one of 3 others under every combination of semicolons, multi-line attributes, no commas x 3 separators; every ordered pair of forms with one-line printing; a value with nine forms under every white-space separator of 0..2 characters; the inline size over all 64-bit values with 14 forms and 3 separators; every order of three builder calls out of 7; the explicit constructor with any separator of 0..1 characters and any inline size; nesting to depth 2; indent steps 0..8.",
  "every ordered pair of forms with separators of 0..1 symbolic characters, any inline size and every flag; every order of four builder calls.", PRINT_OUT + " Separators that are not white space, indent steps above 8.")
p("C04", "print",
  "Every UTF-8 string of 0..3 bytes in 22 contexts; 5 ways to write an identifier with 1..2 symbolic bytes in 8 positions; every sequence of two of 18 statement forms; three documents with any byte replaced or inserted.",
  "4 bytes in the 22 contexts, two adjacent bytes replaced.", PARSER_OUT)
p("C13", "print",
  GRAPHS + "Each form printed twice and compared with a fresh context, under every flag combination, 3 steps, 3 separators and every 64-bit inline size; with any of 7 other values printed in between; after every history of two (against a fresh context) and three of the 7; attribute lists, edges, subgraphs and other parts printed on their own.",
  "longer histories and more values (entries h_c13_t_*).", PRINT_OUT)
p("C14", "print",
  GRAPHS + "Anonymous identifiers with internal names of symbolic bytes in four placements: the text equals that of another internal name, and parses back anonymous; anonymous graphs and subgraphs in parsed documents with symbolic bytes around them are anonymous and no named one is.",
  "longer internal names and texts (entries h_c14_t_*).", PRINT_OUT)
p("C15", "print",
  GRAPHS + "Every form in directed and undirected graphs, nested, inlined and after prints of other graphs of both kinds: the numbers of -> and -- in the text are the ones the value has.",
  "deeper nesting and longer histories (entries h_c15_t_*).", PRINT_OUT)
p("C16", "print",
  GRAPHS + "The text equals that of an independent layout model (harness/src/refq.rs) for every form and pair under every flag combination, symbolic separators and steps, and every 64-bit inline size (the solver finds the threshold).",
  "larger combinations (entries h_c16_t_*).", PRINT_OUT)
p("C17", "print",
  GRAPHS + "One or two registered value printers, keys and values with symbolic bytes, 6 hosts, nested, one-line and multi-line layout: the text equals the model's with the value replaced exactly where the key is equal.",
  "larger combinations (entries h_c17_t_*).", PRINT_OUT)
p("C18", "print",
  GRAPHS + "Every form under both flags, steps 0..4, separators of 0..2 symbolic blanks and every 64-bit inline size, printed twice; separators of 0..3 ASCII bytes; 6 sets of further builder calls on both contexts; nesting to depth 3.",
  "every ordered pair of forms with further builder calls.", PRINT_OUT)

p("C19", "attrs",
  "Every constructor of the five typed attribute families (name and value text against a table made from Graphviz's documentation and checked against dot 2.43), every value of every enumeration, every colour name; bools and i32/u32 values over their whole range (the digits are decided by the solver), floats from a list of 18 values including extremes, texts of 0..3 symbolic UTF-8 bytes; defaults of typed attributes.",
  "the same with longer texts (entries h_c19_t_*, if any).", "Float values other than the listed ones; texts longer than stated.", compile_is_violation=True)
p("C25", "attrs",
  "Every constructor of bool, integer, float, colour and enumeration attributes; every enumeration value and every colour; i32 over the 16-bit range, round numbers of 7 digits and the extremes, floats from the list of C19; defaults that are no texts; each on a node, an edge or a graph default and as a statement; margin_separate with 16 floats.",
  "integers over 32 bits.", "Typed attributes with a String value (their text is DOT text by design: the caller quotes), other floats.", modules=["attrs"], compile_is_violation=True)
p("C20", "macros",
  "Every documented form of id!, port!, node_id!, attr!, attrs!, node!, edge!, subgraph!, stmt! and graph! against the structure written out by hand, identifier text of 0..3 symbolic ASCII bytes; every argument expression evaluated once.",
  "the same entries.", "Longer argument lists than the harness writes out (the recursion of the macros is per argument); forms that do not compile today (a call expression as first argument of node!, node!(id => port) without attributes).", compile_is_violation=True)
p("C21", "structs",
  "add_stmt histories on graphs (both kinds) and subgraphs with symbolic statements; all conversions; GraphAttributes::new for every text of 0..5 bytes; equality and hashing of pairs of values that differ in at most the symbolic bytes; clones.",
  "the same entries with more bytes (h_c21_t_*, if any).", "Larger values and longer histories.", compile_is_violation=True)
OSM = "the operating system is the model in harness/src/osmodel.rs: files, pipes, one child, errno; std's and tempfile's code above libc is executed"
CMD_OUT = "Other platforms than Linux with glibc 2.24 or later (posix_spawn), other threads, more than two runs in one process, failures of reading the child's pipes (std itself panics there)."
p("C22", "cmds",
  "Every layout and every format (through both conversions), output paths and custom arguments of 0..4 symbolic UTF-8 bytes: the second element of the argument vector the model's posix_spawnp receives is compared with a table of Graphviz's names.",
  "texts of 5..8 bytes.", CMD_OUT, assumptions=[OSM], compile_is_violation=True)
p("C23", "cmds",
  "0..3 arguments of 4 kinds with symbolic text in any order; DOT texts of 0..4 UTF-8 bytes; every exit code and signal with 0..3 bytes of output and 0..2 bytes of any errors; every arrival schedule of two bytes on each pipe in up to two pieces; outputs, errors and texts of 31..9000 bytes with a symbolic byte; TMPDIR with two arbitrary bytes; two runs in a row; exec() on graphs under 6 option sets with a symbolic name.",
  "the same entries.", CMD_OUT, assumptions=[OSM])
p("C24", "cmds",
  "The position of the failing call is symbolic (0..39, all calls made), so is its errno (1..133) or short count: every single fault with any exit status and one byte on each pipe, every pair of faults, every pair with a failing dot; arguments of 3 ASCII bytes including NUL. After the call: no panic, no open descriptor, no child left unwaited, the temporary file removed or its removal attempted, Err exactly when something failed, with the failing call's error kind; dot never starts on incomplete input.",
  "every triple of faults.", CMD_OUT, assumptions=[OSM])

EXTRA = {'C01': 'Whole words of 4..11 letters, identifiers of 6..35 symbolic bytes and any one character of 2..4 bytes in every identifier position or context; two statements out of 18 forms followed by an '
        'unfinished one.',
 'C02': 'Names that are whole words of 3..12 symbolic letters in every position, two equal or different names at once, lists of attributes of all kinds.',
 'C03': 'Word names and mixed attribute lists under the flags.',
 'C04': 'Words, mixed lists and any one wide character.',
 'C05': 'Whole words of 4..12 letters in upper or lower case (any spelling) bare, quoted, in HTML and escaped, any one character of 2..4 bytes in 6 ways in all 8 positions; HTML nested to depth 7.',
 'C06': 'Comments of 6..12 bytes, three fillers in a row, and quoted strings of 8 bytes.',
 'C07': 'Words of 4..8 letters (keywords included) in 10 statement shapes; the same statement 2..4 times.',
 'C08': 'Words of 4..8 letters at 8 header places, names of 6..25 symbolic bytes, any one wide character.',
 'C09': 'Words of 1..8 letters as keys and values on 6 hosts; keys and values of all four identifier kinds; repeated keys and pairs; 1..9 brackets, some empty.',
 'C10': 'Words of 3..8 letters as port names and directions, and the compass names in either case.',
 'C11': 'Words as edge ends, repeated ends (self loops), and attribute lists of all kinds on edges.',
 'C12': 'Opened constructs with longer text, unbalanced braces to depth 8, and longer trailing text.',
 'C13': 'Word names, and five prints in a row.',
 'C14': 'Internal names of 0..12 symbolic bytes, numerals and words included.',
 'C15': 'Word names, chains and bodies of many edges.',
 'C16': 'Word names, mixed attribute lists on 6 hosts, deeper nesting.',
 'C17': 'Printers for every kind of key, with keys that Graphviz knows.',
 'C20': 'All 96 macro arms, texts, empty and long lists.',
 'C21': 'The display form of identifiers of 0..4 symbolic bytes; longer histories, identifiers and lists; equality of edges and lists in all kinds.',
 'C22': 'Custom arguments and paths of up to 12 bytes, several arguments.',
 'C23': 'Short writes, interrupted calls, long texts and many arguments.',
 'C24': 'Directories created, renamed or removed by the implementation count as files.'}
for k, v in EXTRA.items():
    PROPS[k]["bounds"]["quick"] += " Also: " + v
SIZES = "of 33, 65, 101, 129, 257 and 1025"
BIG = {'C01': 'documents of up to 514 statements, whole, cut, or with a wrong character near the end',
       'C02': 'values with bodies, attribute lists, chains and nesting of 33 to 257 items, identifiers of up to 5000 bytes',
       'C03': 'such values under every flag, with steps, inline sizes and separators of the same sizes',
       'C04': 'such values and identifiers parsed, printed and parsed again',
       'C05': 'texts ' + SIZES + ' bytes (up to 66000) in every kind and position, HTML nested to depth 257',
       'C06': 'fillers and comments of up to 5000 bytes, strings with as many comment marks',
       'C07': 'bodies ' + SIZES + ' statements, nesting of up to 101',
       'C08': 'header identifiers and bodies of these sizes',
       'C09': 'lists ' + SIZES + ' pairs or brackets, keys and values of these sizes',
       'C10': 'port names of these sizes, up to 257 ports in one document',
       'C11': 'chains ' + SIZES + ' ends, as many edges',
       'C12': 'the large documents with the last byte missing, something behind them, and large texts in unfinished constructs',
       'C13': 'large values printed in between, and 300 prints in a row',
       'C14': 'anonymous subgraphs in numbers of up to 257', 'C15': 'large values', 'C16': 'large values, steps, separators and inline sizes',
       'C17': 'up to 65 registered printers, up to 257 attributes, values of 300 bytes', 'C18': 'large values and options',
       'C19': 'typed texts of up to 1025 bytes; attribute enumerations a user derives with the public macro',
       'C20': 'texts of up to 1025 bytes, lists of 24 arguments', 'C21': 'histories, lists and identifiers ' + SIZES + ' items',
       'C22': 'arguments of up to 5000 bytes, up to 257 of them', 'C23': 'outputs and texts of up to 70000 bytes, up to 70 runs in one process',
       'C24': 'one fault while texts and outputs of up to 20000 bytes are moved'}
for k, v in BIG.items():
    PROPS[k]["bounds"]["quick"] += " Large sizes (with one or two symbolic bytes): " + v + "."
ROWS = "a covering family (rows fix statement forms, 32 forms of identifier, ports, attribute counts, nesting to depth 3, header"
ROWS = {k: ROWS + t + ") with up to 4 symbolic characters per row" for k, t in dict(text=", spacing and optional punctuation", print=" and options", structs="", cmds=", options, layout and format").items()}
COMBINED = dict(C01=3072, C02=12288, C03=12288, C04=6144, C05=6144, C06=6144, C07=6144, C08=6144, C09=6144, C10=6144, C11=6144, C12=6144, C13=32768, C14=8192, C15=32768, C16=32768, C17=32768, C18=32768, C21=16384, C23=4096, C26=3072)
for k, n in COMBINED.items():
    t = "structs" if k == "C21" else "cmds" if k == "C23" else "text" if k in ("C01", "C04", "C26") or "C05" <= k <= "C12" else "print"
    PROPS[k]["bounds"]["quick"] += " Combined values: %d rows of %s." % (n, ROWS[t])
    PROPS[k]["bounds"]["thorough"] += " Combined values: %d further rows." % (16384 if k == "C23" else 32768)
PAIRS = ("a key and its value, one or both of them a whole word of 1..12 symbolic letters, the other one of 64 names Graphviz knows or of 16 values; "
         "each of the 64 names with a string holding a symbolic escape, two symbolic bytes or a decimal with symbolic digits")
ALIKE = "pairs of names that are equal or differ in the case of a letter, in one letter or by one more letter"
TEXTS = "quoted and HTML strings of 4..12 bytes all of which are symbolic; an escape of any ASCII character in 5 surroundings"
LONG = "strings of 30, 90 and 300 bytes with two symbolic bytes, an escape of any character or a wide character (of five) at the start, middle or end"
MORE = {"C01": [PAIRS, "strings of 2..4 symbolic bytes in the 22 contexts"], "C02": [PAIRS, TEXTS, LONG, ALIKE], "C03": [PAIRS, TEXTS, LONG], "C04": [PAIRS, TEXTS, LONG.replace("30, 90 and 300", "30 and 90"), ALIKE],
        "C05": [TEXTS, LONG], "C06": ["strings of 4..8 symbolic bytes among comments that hold quotes"], "C07": [ALIKE], "C09": [PAIRS, TEXTS, ALIKE],
        "C13": [PAIRS, LONG, "registered printers that change all, some or no values, and one more registered between prints"],
        "C14": [PAIRS], "C15": [PAIRS, "operators inside strings"], "C16": [PAIRS, TEXTS, LONG, ALIKE], "C17": [TEXTS, LONG],
        "C26": ["four of eight documents with different headers in any order around a text"]}
RELATED = "2 or 3 statements (pairs, ends) that share names, of 7 to 9 forms in every order"
WIDE = "a wide character at each of 9 places of the values of 64 attributes and in every identifier position, and an error at each of 82 distances after one"
for k, v in {"C01": [WIDE], "C02": [RELATED], "C03": [RELATED], "C04": [RELATED], "C07": [RELATED], "C09": [RELATED], "C11": [RELATED], "C16": [RELATED, "every statement form at depths 1..13"],
             "C06": ["documents of 1500 to 9000 bytes with a string that looks like a comment"],
             "C12": ["40 texts that end or separate documents elsewhere, with what follows them", "documents that end after one of 25 beginnings and 0..2 symbolic bytes"],
             "C13": ["edges of all lengths within 35 bytes of the inline size, in pairs"], "C14": ["anonymous parts around and inside named ones of 20 names"],
             "C17": ["lists of 1..5 attributes, each one of three"], "C18": ["a value printer that shows the layout it is given"], "C21": ["lists of 1..3 parts in every order, in 5 places"],
             "C22": ["HOME and PATH (and TMPDIR in some entries) are set in the environment, other names are not"],
             "C23": ["24 messages as output or error text under three statuses", "20 source texts as such and with one symbolic byte or a line break at either end"],
             "C26": ["names of 9 to 300 bytes that differ in one symbolic byte at one of 7 places"]}.items():
    MORE.setdefault(k, []).extend(v)
for k, v in MORE.items():
    PROPS[k]["bounds"]["quick"] += " Whole symbolic texts: " + "; ".join(v) + "."
