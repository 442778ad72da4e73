MC = "explicit exhaustive enumeration of executions of the real code against a reference model (model checking, stateless)"
CLAIMS = {
 "C01": (MC, "model_checking", "all modules over the section grammar within the bounds"),
 "C02": (MC, "model_checking", "all modules over the section/name grammar within the bounds"),
 "C03": (MC, "model_checking", "all modules over imports, bodies, exports, segments within the bounds"),
 "C04": (MC, "model_checking", "all segment layouts x addresses within the bounds"),
 "C05": (MC, "model_checking", "all one-byte and many two-byte changes, cuts, short payloads, section sequences, operators and symbol names within the bounds"),
 "C06": (MC, "model_checking", "all rooted digraphs within the bounds"),
 "C07": (MC, "model_checking", "all rooted digraphs and sizes within the bounds"),
 "C08": (MC, "model_checking", "all digraphs, root sets, limits and kinds within the bounds"),
 "C10": (MC, "model_checking", "all size vectors, graphs and limits within the bounds"),
 "C09": (MC, "model_checking", "all digraphs, directions, starts and limits within the bounds"),
 "C11": (MC, "model_checking", "all pairs of item lists within the bounds"),
 "C12": (MC, "model_checking", "all assignments of functions to generics within the bounds"),
 "C13": (MC, "model_checking", "all digraphs, selections and limits within the bounds"),
 "C14": (MC, "model_checking", "all names over the character classes, all Unicode characters, all small graphs and options within the bounds"),
 "C15": (MC, "model_checking", "all names, graphs, sizes and option combinations within the bounds"),
 "C16": (MC, "model_checking", "all sequences of analyses within the depth bound"),
 "C17": (MC, "model_checking", "all states of the option objects, all flag and setter orders within the bounds"),
 "C18": ("exhaustive fault enumeration: every write call, byte offset and short-write size of every analysis and format as the failure point, on the real code", "fault_enumeration", "all failure points of the listed analyses, formats and commands"),
 "C19": (MC, "model_checking", "the full product of commands, inputs, modes, formats, destinations and argument errors, and all command histories within the bounds"),
 "C20": (MC, "model_checking", "all trees of entries, forms, names, range lists, values and units within the bounds"),
 "C21": (MC, "model_checking", "all inputs, names, extensions, modes and flags within the bounds"),
 "C22": (MC, "model_checking", "all names of the grammar and all short strings within the bounds"),
 "C23": (MC, "model_checking", "all setter sequences, call histories, modules and damaged modules within the bounds, run in the compiled WebAssembly binding"),
 "C24": (MC, "model_checking", "all dense graphs, limits and directions within the bounds, and long chains of every kind on a small stack"),
}
NOT_APPLICABLE = {}
NOTES = "All checks are one Rust program (harness/) that links /repo's crates and enumerates executions exhaustively within stated bounds; see DESIGN.md."
