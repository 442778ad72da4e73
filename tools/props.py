"""The property table. `python3 tools/mkmeta.py` writes properties.jsonl and MANIFEST.json from it."""
W = "parser/wasm_parse/mod.rs"
IR = "ir/ir.rs"
A = "analyze/analyses/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Every byte of a module belongs to exactly one item",
 "For every WebAssembly module that is parsed successfully, the shallow sizes of all items add up to exactly the length of the input file: no byte is counted twice and none is lost. "
 "This holds whatever sections are present, in whatever order, however often a custom section repeats, however the length fields are encoded, and when a name subsection cannot be understood; the total row of `top` therefore equals the file size.",
 ["inputs"], "All section mixes, entry counts (including zero), LEB widths, custom/name section positions and contents.",
 "The tests print six fixture modules with a truncated top list; nothing sums the sizes, and each fixture has one fixed section layout.",
 [W, IR], [("section header item gets section size minus entry sizes", W+": parse_items"), ("iterate_with_size", W), ("function and code headers are merged", W+": (FunctionSection, CodeSection)::parse_items")],
 ["Items::iter sizes", "twiggy top -f json"], [("size_added", "running sum of item sizes", IR+": ItemsBuilder")])

prop("C02", "Every entry of a section becomes one item with its name and size",
 "For every valid module each type, import, function, table, memory, global, export, element segment, data segment, custom section and name subsection yields exactly one item whose size is the number of bytes of its encoding (a function: its body plus its entry in the function section) and whose name identifies it as documented; every section also yields one header item with the remaining bytes. "
 "Functions and data segments carry the name the name section gives to their index in the module's index space (imports counted first), wherever the name section stands; without one they are called code[i] and data[i]. "
 "Only functions are code, only globals and data segments are data.",
 ["inputs"], "All small modules over an abstract syntax covering every section kind and entry form, with every combination of imports, names and section presence within the bounds.",
 "The fixtures exercise one import layout and one name-section placement each; shifting the import offset or the entry numbering in a corner (several imports of mixed kinds, data names, a second name section) passes them.",
 [W, IR], [("names looked up at i + imported_functions", W), ("count_imported_functions", W), ("parse_names_section", W)],
 ["Items::iter: name, size, kind", "twiggy top -f json"])

prop("C03", "Reference edges are exactly the references in the module",
 "For every valid module an item refers to another one if and only if the module does: a function to its type, to every function it calls and to every global it reads or writes; an export to the function, table, memory or global it exports; the start section to its function; a table to every element segment that initialises it, and an element segment to every function it lists. "
 "The roots of the graph are exactly the section headers, the exports, the tables and the name subsections, and indices resolve with imported entities counted first in each index space.",
 ["inputs"], "All small modules over imports of every kind, calls, global accesses, exports of every kind, start, active/passive/declared segments on several tables.",
 "Fixtures have one or two imports, one table and no imported table, memory or global, so an index space that mixes imports and definitions wrongly, or a lost edge kind, does not change an expected output.",
 [W], [("SectionIndices", W), ("parse_edges of each section reader", W)],
 ["Items::neighbors", "twiggy paths --descending -f json"])

prop("C04", "A constant-address load refers to the segment holding that address",
 "A function with an i32, i64, f32 or f64 load instruction from a constant address refers to a data segment exactly when the effective address (constant plus static offset, as unsigned 32-bit wasm addresses without wrap-around) lies inside the range that an active data segment with a constant position initialises, and the segment is the one covering that address (segments of one memory that do not overlap). "
 "A load whose address is not such a constant, or that hits no segment, adds no reference and never fails.",
 ["inputs"], "All layouts of up to three data segments, all addresses at and around their boundaries, all splits of the address into constant and offset, extreme constants, every load width.",
 "One fixture has data segments and only loads at segment starts; addresses strictly inside, one past the end, below zero or with an offset are never loaded.",
 [IR, W], [("ItemsBuilder::link_data/get_data", IR), ("I32Const followed by a load", W)],
 ["Items::neighbors", "twiggy garbage", "twiggy paths"], [("data", "start address of a segment -> (item, length)", IR+": ItemsBuilder")])

prop("C05", "No input file can crash or hang twiggy",
 "For every byte string given as a WebAssembly or ELF input, parsing ends, and either returns a set of items or an error; it never panics, aborts, overflows the stack or loops. "
 "Whenever parsing succeeds, every analysis in every output format also completes on the result without crashing, and every reference joins two existing items.",
 ["inputs"], "All truncations, byte substitutions, insertions and deletions of seed files, all short section payloads, all short section sequences (valid order or not), all out-of-range indices.",
 "No test feeds a malformed file; indices, counts and lengths are attacker- or toolchain-controlled 32-bit numbers.",
 [W, "parser/object_parse/mod.rs", "parser/object_parse/die_parse/location_attrs.rs", IR, "parser/parser.rs"],
 [("Result propagation from wasmparser/gimli", W), ("index lookups in SectionIndices", W)],
 ["twiggy_parser::parse", "process exit status"])

prop("C06", "The dominator tree is the true dominator relation",
 "For every item graph, item a is reported as the immediate dominator of b exactly when every path from the roots to b passes through a and a is the closest such item; every reachable item occurs exactly once in the tree, and unreachable items do not occur. "
 "Cycles, self references, several roots and unreachable predecessors make no difference.",
 ["inputs"], "All rooted directed graphs with self loops up to the node bound, plus parametric families (chains, ladders, irreducible loops, wide fans).",
 "The expected outputs cover a handful of mostly tree-shaped graphs; irreducible cycles and edges from unreachable nodes are absent.",
 [IR, "ir/graph_impl.rs", A+"dominators/mod.rs"], [("petgraph simple_fast over the meta root", IR), ("graph trait implementations", "ir/graph_impl.rs")],
 ["Items::dominator_tree", "Items::immediate_dominators", "dominators -f csv ImmediateDominator"])

prop("C07", "Retained size is what removing the item would free",
 "For every item graph the retained size of a reachable item is the total shallow size of the items that are no longer reachable from the roots once it is removed (itself included), so the meta root retains exactly the reachable bytes. "
 "It does not depend on the order in which items were numbered or in which analyses were run.",
 ["inputs", "histories"], "All rooted digraphs up to the node bound with sizes that identify every subset, zero sizes, plus large parametric families.",
 "Only four fixtures are printed with --retained; no test recomputes the value by removal.",
 [IR, A+"top.rs", A+"dominators/emit.rs"], [("compute_retained_sizes over the dominator tree", IR)],
 ["Items::retained_size", "top --retained", "dominators"])

prop("C08", "Garbage is exactly what no root reaches",
 "The garbage report covers exactly the items that no root reaches, largest first: each appears either in its own row or in the \"and N more\" row once the limit is exceeded, and the total row counts them all with their exact byte sum. "
 "Unreachable data segments and globals are summarised in a separate line with their count and bytes unless asked to be shown, in which case they are ordinary rows; nothing reachable is ever listed. All of this holds in all three output formats.",
 ["inputs", "configurations"], "All rooted digraphs up to the bound with all kinds and sizes (ties, zero), all limits 0..n+1, show-data-segments and all flags, all formats.",
 "Two fixtures with hardly any garbage and limits of 2 and 10; CSV is not tested at all.",
 [A+"garbage.rs", IR], [("petgraph Dfs from the meta root", A+"garbage.rs"), ("split by ItemKind::is_data", A+"garbage.rs")],
 ["twiggy garbage"])

prop("C09", "Paths shows exactly the cycle-free call paths within the limits",
 "For every graph, the tree printed for a starting item contains, level by level, exactly the items that refer to the parent (descending: that the parent refers to), never repeating an item of the current path and never showing the synthetic root, cut at the depth limit and to the first N children of each item. "
 "The starting items are the named ones in order of the arguments, the regex matches, all items by descending size, or with --descending the roots by descending size.",
 ["inputs", "configurations"], "All digraphs up to the node bound, both directions, all depth and path limits up to beyond the graph's size, all argument forms.",
 "Expected outputs cover a dozen acyclic walks; self recursion, mutual recursion and limit 0 do not occur.",
 [A+"paths/mod.rs", A+"paths/paths_emit.rs", IR], [("create_entry with the seen set", A+"paths/mod.rs"), ("depth and path limits applied when emitting", A+"paths/paths_emit.rs")],
 ["twiggy paths"])

prop("C10", "Top ranks all items and loses none when truncating",
 "Top lists the items in non-increasing order of shallow size, or of retained size when asked for retained sizes, each item exactly once and never the synthetic root, showing the first N. "
 "The text summary row counts exactly the hidden items with their byte sum and the total row counts all items with the sum of all shallow sizes; every percentage is the value's share of the file size.",
 ["inputs", "configurations"], "All size vectors up to the bound including ties and zeros, all limits 0..n+1, with and without retained sizes, all formats.",
 "A few fixtures with limits far below the number of items; no test checks the arithmetic of the summary.",
 [A+"top.rs"], [("sort_by and take/skip", A+"top.rs"), ("summarize_rows", A+"top.rs")], ["twiggy top"])

prop("C11", "Diff accounts for every change between two binaries",
 "Diff lists exactly the item names whose total size differs between the old and the new binary, each once, with the signed difference (new minus old; a name present on one side only counts fully), by decreasing magnitude. "
 "Truncated rows are summed in one row with their count, and the total row counts the changed names and gives the change in file size, or, with item arguments, the sum over the selected names; diffing a binary against itself shows no change and swapping the operands negates every number.",
 ["inputs", "configurations"], "All pairs of item lists up to the bound, with names on either side, duplicates, equal magnitudes of both signs, all limits, exact and regex selections.",
 "A single pair of fixtures; no duplicate names, no swapped operands, no identity.",
 [A+"diff.rs"], [("name -> size maps", A+"diff.rs"), ("DiffEntry ordering", A+"diff.rs")], ["twiggy diff"])

prop("C12", "Monos groups every instantiation and computes the documented bloat",
 "Monos lists every function recognised as an instance of a generic exactly once under that generic, generics ordered by decreasing approximate bloat and instances by decreasing size; a generic's total is the sum of all its instances and its bloat is the smaller of (count-1) times the average size and the total minus the largest instance. "
 "Limits on generics and instances only fold rows into \"and N more\" rows that keep the byte sums, and the total row covers everything, whatever combination of limits, selections (exact names taken literally, or regular expressions) and flags is used.",
 ["inputs", "configurations"], "All assignments of up to n functions to generics with all small sizes (ties, identical name and size), all limit/flag/selection combinations.",
 "Three fixtures with fixed limits; the folded sums, equal instances and names with regex metacharacters are not covered.",
 [A+"monos/mod.rs", A+"monos/emit.rs", A+"monos/entry.rs"], [("collect_monomorphizations", A+"monos/mod.rs"), ("calculate_total_and_bloat", A+"monos/mod.rs"), ("add_stats", A+"monos/mod.rs")], ["twiggy monos"])

prop("C13", "The dominators report shows the requested subtrees within the limits",
 "Without arguments the dominators report is the whole dominator tree below the synthetic root, children by decreasing retained size, followed by a summary with the number and bytes of the unreachable items if those have any bytes; with arguments it is the subtree of each named (or regex-matched) item and no summary. "
 "In the text format no row deeper than the depth limit is printed and the row limit cuts the listing after that many rows, a limit that is not exceeded changes nothing, and all formats show the same items.",
 ["inputs", "configurations"], "All rooted digraphs up to the bound, all argument selections, all depth and row limits up to beyond the tree, all formats.",
 "One fixture with one limit pair; CSV with arguments, limits at the boundary and nested matches are not covered.",
 [A+"dominators/mod.rs", A+"dominators/emit.rs"], [("DominatorTree::rows", A+"dominators/emit.rs"), ("summarize_unreachable_items", A+"dominators/mod.rs")], ["twiggy dominators"])

prop("C14", "JSON output is always valid and preserves names",
 "For every binary and every analysis the JSON output is one syntactically valid JSON document in valid UTF-8, and decoding it gives back every item name exactly, whatever characters the names contain. "
 "The keys of an object are unique and the numbers are finite.",
 ["inputs"], "All names of up to a few characters over an alphabet of all JSON-relevant character classes (quote, backslash, every control character, non-BMP), placed in every kind of named item and every analysis.",
 "All fixture names are plain ASCII; the only escaped character in any expected output is the quote of an export name.",
 ["analyze/formats/json.rs", A+"top.rs", A+"diff.rs", A+"garbage.rs", A+"paths/paths_emit.rs", A+"monos/emit.rs", A+"dominators/emit.rs"],
 [("JsonPrimitive for &str", "analyze/formats/json.rs"), ("Array/Object comma handling and Drop", "analyze/formats/json.rs")], ["stdout of twiggy -f json"])

prop("C15", "Text, JSON and CSV report the same facts",
 "For every binary, analysis and option set, the three output formats agree: the rows they share name the same items in the same order with the same sizes and percentages, up to rounding and to the summary rows a format does not have. "
 "CSV output is well-formed: a header and records of equal length in which names with commas, quotes or line breaks are quoted so that a CSV reader gets them back (a report without rows may be empty); text columns line up under their header.",
 ["inputs", "configurations"], "All small graphs with names over CSV-relevant characters, all analyses, all option combinations.",
 "Each expected output is a separate golden file per format for different option sets; nothing relates them.",
 [A+"top.rs", A+"diff.rs", A+"garbage.rs", A+"paths/paths_emit.rs", A+"monos/emit.rs", A+"dominators/emit.rs", "analyze/formats/table.rs"],
 [("emit_text/emit_json/emit_csv of each analysis", "analyze/analyses"), ("Table column widths", "analyze/formats/table.rs")], ["stdout of twiggy -f text|json|csv"])

prop("C16", "Results do not depend on what was computed before",
 "Running an analysis on parsed items gives byte-for-byte the same output no matter which other analyses were run on the same items before, in which order or how often, how often and in which format the result was emitted, or in which process it runs. "
 "No analysis changes the items themselves.",
 ["histories"], "All sequences of analyses (with differing options, including diff in both roles) up to the depth bound on one set of items, compared with fresh items.",
 "Every test runs one analysis in one process; memoised state shared between analyses is never reused.",
 [IR, A+"top.rs", A+"dominators/mod.rs", A+"paths/mod.rs", A+"diff.rs"], [("memoised predecessors, dominators, retained sizes", IR)],
 ["emitted bytes"], [("dominator_tree, immediate_dominators, retained_sizes, predecessors", "memoised, None until first computed", IR+": Items")])

prop("C17", "Options mean what flags and setters say, in any order",
 "After any sequence of command line flags or option setter calls, the effective limits and switches are those of the last value given for each, with the documented defaults when none was given; an \"all\" flag lifts exactly the limits it names, and setting one limit afterwards restores that limit only. "
 "Setting one option never changes another one.",
 ["histories", "configurations"], "All reachable states of the option objects under all flags and setter calls with boundary values, all flag orders.",
 "The command line tests use at most three flags together and the setters are only used by the web API, which has no tests.",
 ["opt/definitions.rs", "opt/opt.rs", "opt/build.rs"], [("Monos::set_max_generics / set_max_monos", "opt/definitions.rs"), ("getter overrides by all flags", "opt/definitions.rs")],
 ["getter values", "number of rows reported"], [("all_generics_and_monos, all_generics, all_monos, all_items", "flags overriding the limits", "opt/definitions.rs")])

prop("C18", "A failed write is never reported as success",
 "If the output destination accepts only part of the report, at whatever point and for whatever analysis and format, the call returns an error and the command exits with a failure status; success means that the destination received the complete report. "
 "Short writes and interrupted writes that are not failures lose nothing.",
 ["fault_sequences", "crash_points"], "Every write call and every byte offset of every analysis and format as the failure point, with permanent errors, transient interruptions and all short-write sizes; for the command: every file size limit.",
 "No test makes a write fail.",
 ["traits/traits.rs", "analyze/formats/json.rs", "twiggy/twiggy.rs", "opt/opt.rs", A+"top.rs"],
 [("Emit::emit", "traits/traits.rs"), ("Array/Object Drop writing the closing bracket", "analyze/formats/json.rs"), ("flush before exit", "twiggy/twiggy.rs")],
 ["Result of emit", "exit status of twiggy"])

prop("C19", "A failing command says so and leaves the output file alone",
 "For every command, input, mode, format and output destination, the command either exits with status 0 and writes the complete report to the destination and nothing elsewhere, or exits with status 1, a message on standard error and no report. "
 "When the input cannot be read or analysed or an argument is invalid, an existing output file keeps its contents and none is created; a successful run replaces the whole previous contents.",
 ["configurations", "fault_sequences"], "The full product of subcommands, input conditions, modes, formats, destinations and argument errors.",
 "The tests run successful commands only.",
 ["twiggy/twiggy.rs", "opt/opt.rs", "traits/traits.rs", "parser/parser.rs"],
 [("destination opened only after the analysis succeeded", "twiggy/twiggy.rs"), ("error message and exit(1)", "twiggy/twiggy.rs")],
 ["exit status, stdout, stderr, output file"])

prop("C20", "Every function with code in DWARF becomes an item of its size",
 "For every ELF file with DWARF information (versions 2 to 5, either byte order, 32 and 64 bit), each subprogram entry that has a code range, at any nesting depth and in any unit, yields exactly one item whose size is the number of code bytes of its range or ranges, and other entries yield none. "
 "Its name is the linkage name if there is one, otherwise the source name, otherwise a placeholder; inconsistent ranges give an error rather than a wrong size.",
 ["inputs"], "All trees of up to a few entries with all combinations of range attributes and forms, names, nesting, units, versions, byte orders and address sizes.",
 "One ELF fixture, of which the top 25 items are printed.",
 ["parser/object_parse/mod.rs", "parser/object_parse/compilation_unit_parse/mod.rs", "parser/object_parse/die_parse/mod.rs", "parser/object_parse/die_parse/location_attrs.rs", "parser/object_parse/die_parse/item_name.rs"],
 [("entity_size", "parser/object_parse/die_parse/location_attrs.rs"), ("depth-first entry walk", "parser/object_parse/compilation_unit_parse/mod.rs"), ("item_name", "parser/object_parse/die_parse/item_name.rs")],
 ["Items::iter", "twiggy top -f json"])

prop("C21", "The input format is chosen by extension, magic number and mode",
 "With mode auto a file is read as WebAssembly exactly when its extension is wasm or its contents start with the wasm magic number, and as an object file otherwise; an explicit mode always wins. "
 "The result is the same as with the explicit mode for that format, independent of the file's name and location, and both files of a diff are read in the requested mode.",
 ["configurations", "inputs"], "The product of extensions, contents (empty, short prefixes of the magic number, wasm, ELF, junk) and modes, for each subcommand.",
 "All fixtures have the expected extension and the default mode; --mode is never passed.",
 ["parser/parser.rs", "traits/traits.rs", "twiggy/twiggy.rs"], [("sniff_wasm", "parser/parser.rs"), ("read_and_parse mode dispatch", "parser/parser.rs")], ["read_and_parse result"])

prop("C22", "Function names are demangled and generics recognised",
 "A function whose symbol is a Rust (legacy or v0) or C++ mangled name is shown under its demangled name, and any other name is shown unchanged. "
 "A function counts as an instance of a generic exactly when its displayed name ends in a Rust hash component, ::h and 16 hexadecimal digits with or without a dot suffix (the generic is the path before it), or, for other names, contains a template argument list that does not start the name (the generic is the text before it).",
 ["inputs"], "All symbols built from small sets of path components, escapes, hash suffixes and template arguments, and all short strings over the characters the recogniser looks at.",
 "Two fixtures compiled by one compiler version each.",
 [IR], [("Code::demangle", IR), ("Code::extract_generic_function", IR)], ["Item::name", "Item::monomorphization_of", "twiggy monos"])

prop("C23", "The web API gives the same answers as the command line",
 "For every module and every sequence of API calls, the JSON string that the WebAssembly build of twiggy returns for an analysis equals what the command line prints for the same module and options with the JSON format. "
 "Every analysis the API offers can be configured and called through it.",
 ["histories", "inputs", "configurations"], "All sequences of API calls up to the depth bound on one parsed module, with all option setters at boundary values.",
 "The web API crate has no tests and is not run anywhere.",
 ["wasm-api/wasm-api.rs", "opt/definitions.rs", "opt/build.rs", IR], [("Items::{top,dominators,paths,monos,diff}", "wasm-api/wasm-api.rs")], ["strings returned by the exported functions"])

prop("C24", "Limits bound the work, not only the output",
 "Every analysis finishes in time polynomial in the size of the item graph and of its output: with a depth limit, the cost of listing paths is bounded by the paths within that depth, however densely the items refer to each other. "
 "Long reference chains are handled without exhausting the stack.",
 ["inputs", "configurations"], "Complete digraphs, layered graphs and chains of growing size with every small depth and path limit.",
 "All fixtures have sparse graphs of a few hundred items.",
 [A+"paths/mod.rs", A+"paths/paths_emit.rs", IR], [("create_entry recursion", A+"paths/mod.rs"), ("compute_retained_sizes", IR)], ["completion"])
