CORE = "projects/oak-core/src/"
def core(*names): return [CORE + n for n in names]
prop("C06", "Sources of every kind read back as the text with the edits applied",
 """After any history of edits and appends, a SourceText, a rope buffer and its snapshots, and a chunk buffer answer every read (length, text of any range or from any offset, character at an offset, chunk at an offset, source id)
 exactly as a plain string that underwent the same edits would. An edit call reports the smallest range of the old text that covers its edits; a snapshot taken before an edit keeps its text;
 a string slice answers as the same text does in the other kinds, and an offset outside or inside a character never panics.""",
 ["inputs", "histories"], "all texts x all histories of valid edits, for each kind of source", "The tests make one or two edits of short ASCII texts; splits and merges of rope nodes, empty pieces, edits at borders and large texts need generated histories.",
 core("source/rope.rs", "source/text.rs", "source/streaming.rs", "source/mod.rs", "source/buffer.rs"),
 [("RopeBuffer::apply_edits / snapshot", CORE + "source/rope.rs"), ("SourceText::apply_edits_range", CORE + "source/text.rs"), ("ChunkedBuffer", CORE + "source/streaming.rs")],
 "base", "model: a plain string under the same edits; texts up to 400 characters in most facets and up to about 100 kB in the -big facets", technique="stateful property-based testing against a plain string",
 state=[("rope tree", "leaves of text with cached lengths", CORE + "source/rope.rs")])
prop("C07", "A cursor or lexer state over a text moves and reads as over a string",
 """Whatever chunks a text is stored in, every operation of SourceCursor and LexerState (peek, look ahead, starts_with, advance by characters, bytes or predicates, take_while, find_char, find_str, rest, text of a range, set_position)
 returns what it would return over one string, moves the position exactly as documented, and never leaves it inside a character.""",
 ["inputs", "histories"], "all texts x all chunkings x sequences of cursor operations", "The tests use short contiguous ASCII texts.",
 core("source/cursor.rs", "lexer/mod.rs"), [("SourceCursor", CORE + "source/cursor.rs"), ("LexerState", CORE + "lexer/mod.rs")],
 "base", "model: a position in a plain string; up to 25 operations per case", technique="stateful property-based testing against a plain string")
prop("C08", "Vectorized byte scanning equals scanning byte by byte",
 """For every byte string, at any alignment and length, each vectorized scanning function (finding one byte or one of four, skipping a byte, two bytes, white space, digits, hexadecimal digits, identifier characters, or up to a byte) returns the position or length that a loop over the bytes with the same definition returns.""",
 ["inputs"], "all byte strings", "Differences show in one lane of one block at one alignment.", core("source/simd.rs"), [("SimdScanner", CORE + "source/simd.rs")],
 "base", "differential against byte loops; lengths 0..400 biased to multiples of the vector width", technique="property-based testing, differential against byte loops")
prop("C09", "Scanning helpers recognize exactly the configured lexical forms",
 """Every configurable scanner (line, block and nested comments, quoted and escaped strings, characters, white space, identifiers with keywords) recognizes exactly the longest form its configuration describes at the current place, adds one token of the right kind for it, and otherwise adds nothing and does not move;
 unclosed forms are reported and extend to the end. LexerState::finish keeps tokens in order and gaps filled.""",
 ["inputs", "configurations"], "all configurations x all texts x all chunkings", "Each language uses one configuration of a helper; nesting, escapes at the end and prefixes of markers are not sampled.",
 core("lexer/scan_comment.rs", "lexer/scan_string.rs", "lexer/scan_white_space.rs", "lexer/scan_identifier.rs", "lexer/mod.rs"),
 [("CommentConfig / StringConfig / WhitespaceConfig", CORE + "lexer/")], "base", "reference scanners over plain strings")
prop("C10", "Arena allocations stay intact and apart, and memory is given back",
 """Values, slices and metadata put into an arena are aligned, do not overlap, and read back unchanged until that arena is dropped, whatever is allocated in or dropped with other arenas meanwhile;
 after all arenas of a thread are dropped no more memory stays held than the documented pool of 64 standard chunks.""",
 ["histories", "inputs"], "all histories of allocations and drops over several arenas", "Chunk recycling between arenas takes a history; overlap and misalignment do not show in single allocations.",
 core("memory/arena.rs"), [("SyntaxArena / chunk pool", CORE + "memory/arena.rs")], "base", "model: the values that were put in; a counting allocator measures what is held; threads ending while the pool is full are not judged", technique="stateful property-based testing",
 state=[("chunk pool", "per-thread list of chunks for reuse", CORE + "memory/arena.rs")])
prop("C11", "Red tree navigation and tree cursors agree with the green tree",
 """In every tree, spans of children follow each other from the start of their parent, offset queries (child at, leaf at, index of a child) return the child that contains the offset, cloning a tree into another arena or comparing trees goes by structure, and any walk of a TreeCursor (first child, siblings, parent, step over, step into) stands where the same walk over the plain tree stands.
 Trees of the current and previous generation of a parse cache stay readable after any number of commits.""",
 ["inputs", "histories"], "all trees x all offsets x all walks x histories of generations", "Empty nodes, zero-width leaves and offsets on borders hardly occur in the samples.",
 core("tree/red_tree.rs", "tree/green_tree.rs", "tree/cursor.rs", "tree/mod.rs", "parser/session.rs", "visitor/mod.rs"),
 [("RedNode", CORE + "tree/red_tree.rs"), ("TreeCursor", CORE + "tree/cursor.rs"), ("GreenNode::new / deep_clone", CORE + "tree/green_tree.rs")],
 "base", "reference: an owned tree generated together with the green one; up to 25 levels and 40 children")
prop("C12", "Parser states build the tree their operations describe",
 """For every token list and every history of parser operations (bump, eat, expect, advance, checkpoint, restore, try_parse, finish_at, checkpoint_before, pushes, errors), the current and following tokens, positions, recorded errors and the finished tree are those of a plain model in which trivia is kept in place, a node takes the elements since its checkpoint, and restoring undoes everything after the checkpoint.""",
 ["histories", "inputs"], "all token lists x all histories of parser operations", "Each parser uses a narrow set of sequences; backtracking over trivia and nested checkpoints is not reached.",
 core("parser/state.rs", "parser/mod.rs", "tree/green_tree.rs"), [("ParserState", CORE + "parser/state.rs"), ("TreeSink", CORE + "parser/state.rs")],
 "base", "model: lists of elements; up to 40 operations", technique="stateful property-based testing against a model", state=[("TreeSink", "children, pending trivia, checkpoint marks", CORE + "parser/state.rs")])
prop("C13", "Operator-precedence parsing groups as precedence and associativity say",
 """For every operator table and every expression over it, PrattParser with the binary, unary and postfix helpers groups operators of higher precedence first and those of equal precedence by their associativity, applies prefix and postfix operators by their precedence, and keeps every token once and in order.""",
 ["inputs", "configurations"], "all operator tables x all expressions", "Languages have one table each and short expressions.", core("parser/pratt.rs", "parser/state.rs"),
 [("PrattParser::parse / binary / unary / postfix", CORE + "parser/pratt.rs")], "base", "reference: a shunting algorithm on a list; up to 5 binary operators")
prop("C14", "Errors keep kind, position, and source, and say so when shown",
 """Every error constructor keeps the message, names, offset and source it was given; cloning keeps all of it; with_source_id sets the source exactly for the kinds that have one; the key, Display and Debug texts start with the key and show the details and the offset.
 OakDiagnostics has errors exactly if its result is an error or there are diagnostics; files are read as written, and missing ones are errors.""",
 ["inputs"], "all error kinds x all messages and offsets", "Few constructors are tested, with one message each.", core("errors/mod.rs", "errors/display.rs", "helpers/mod.rs"),
 [("OakErrorKind", CORE + "errors/mod.rs"), ("Display", CORE + "errors/display.rs")], "base", "model: the arguments of the constructor")
prop("C15", "Tokens, provenance, ranges and roles survive writing and reading as JSON",
 """Every token, token stream, provenance, range written with serde_range, shared string, role and category, written as JSON and read back, equals the original; roles have the same name both ways.""",
 ["inputs"], "all values of the serializable types", "No test writes and reads these.", core("serde_range.rs", "serde_arc_str.rs", "language/mod.rs", "lexer/mod.rs", "tree/metadata.rs"),
 [("serde_range", CORE + "serde_range.rs"), ("UniversalTokenRole / UniversalElementRole", CORE + "language/mod.rs")], "base", "round trip", technique="property-based testing, round trip")
prop("C16", "Source text is joined so that adjacent words never merge",
 """A SourceBuffer that pieces are pushed into holds the pieces in order with exactly one space between two pieces where the first ends and the second begins with a word character and nothing otherwise, and to_source_string of a ToSource gives the same.""",
 ["inputs"], "all lists of pieces", "No test covers empty pieces or non-ASCII words.", core("builder/mod.rs", "source/buffer.rs"),
 [("SourceBuffer::push", CORE + "source/buffer.rs")], "base", "reference: joining strings")
