LANGS_WHY = "Each language has a handful of sample files with golden token or tree dumps; nothing relates dumps to the text for other inputs."
LANG_FILES = ["projects/oak-core/src/lexer/mod.rs", "projects/oak-core/src/source/cursor.rs"]
prop("C01", "Lexing accounts for every byte of any text, in any language",
 """For every language in the repository and every text, the token list is in order, its spans follow each other without gap or overlap
 from the first byte to the last, no span starts or ends inside a character, and there is at most one end-of-stream token, empty and at the end of the text.
 Text no rule recognizes is kept as an error token, never dropped.""",
 ["inputs", "programs"], "all texts (valid programs, damaged programs, arbitrary Unicode), for 110 languages and languages made up on the spot", LANGS_WHY,
 LANG_FILES + ["examples/oak-json/src/lexer/mod.rs", "examples/oak-rust/src/lexer/mod.rs", "projects/oak-core/src/lexer/scan_string.rs"],
 [("LexerState::add_token / add_eof / fill_gaps", "projects/oak-core/src/lexer/mod.rs"), ("scan helpers", "projects/oak-core/src/lexer/")],
 "langs", "random and mutated texts per language against the tiling law. The lexers of about 40 of the 110 languages drop unknown characters (listed per language and kind as known findings, in examples/, which commits here may not touch); the others and a strict toy language are judged in full")
prop("C02", "A syntax tree contains exactly the tokens of its text",
 """For every language and every text that parses to a tree, the leaves of the tree read left to right are the tokens of the text with their kinds, every inner node is as long as its children together, and the root covers the whole text,
 including white space and comments at both ends and anything the parser did not understand.""",
 ["inputs", "programs"], "all texts for 110 languages and languages made up on the spot, with and without syntax errors", LANGS_WHY,
 ["projects/oak-core/src/parser/state.rs", "projects/oak-core/src/parser/mod.rs", "projects/oak-core/src/parser/pratt.rs", "projects/oak-core/src/tree/green_tree.rs"],
 [("ParserState::advance / skip_trivia / restore / finish", "projects/oak-core/src/parser/state.rs"), ("TreeSink", "projects/oak-core/src/parser/state.rs")],
 "langs", "random and mutated texts per language; leaves are compared with an independent lexer run. The parsers of about 60 of the 110 languages skip tokens with advance() (listed per language as known findings, in examples/); the others and a strict toy language are judged in full")
prop("C03", "Lexing and parsing do not depend on how the text is stored",
 """Lexing and parsing a text gives the same tokens, tree, and diagnostics whether the text is one contiguous string, a string slice, a rope that was edited together from pieces, or a list of chunks, wherever the chunk boundaries fall.""",
 ["inputs", "configurations"], "all texts x all ways of cutting them into chunks, for 110 languages and languages made up on the spot", "The tests lex and parse contiguous strings; chunk boundaries inside tokens, keywords, and look-ahead are not reached.",
 ["projects/oak-core/src/source/cursor.rs", "projects/oak-core/src/source/rope.rs", "projects/oak-core/src/source/streaming.rs", "projects/oak-core/src/lexer/mod.rs"],
 [("SourceCursor chunk handling", "projects/oak-core/src/source/cursor.rs"), ("LexerState scanning across chunks", "projects/oak-core/src/lexer/mod.rs")],
 "langs", "differential: contiguous against chunked, per language")
prop("C04", "Incremental lexing and parsing equal a fresh run after every edit",
 """When a session has lexed or parsed a text and is given an edited text together with the edits, the tokens, the tree, and the diagnostics it returns are those a fresh session returns for the edited text,
 after any sequence of edit steps, each of one or several edits. The session remembers the tree it returned last.""",
 ["histories", "inputs"], "all texts x all sequences of edits, for 110 languages and languages made up on the spot", "A few tests parse one edited text; histories of edits, edits at token borders, in trivia, at the end of the text, and edits that change what precedes or follows a reused node are not reached.",
 ["projects/oak-core/src/parser/state.rs", "projects/oak-core/src/parser/session.rs", "projects/oak-core/src/parser/mod.rs", "projects/oak-core/src/lexer/mod.rs", "projects/oak-core/src/tree/cursor.rs"],
 [("IncrementalContext / try_reuse / incremental_node", "projects/oak-core/src/parser/state.rs"), ("ParseSession generations", "projects/oak-core/src/parser/session.rs"), ("LexerState::new_with_cache", "projects/oak-core/src/lexer/mod.rs")],
 "langs", "model: a fresh session after every step; 1..5 steps of 1..3 edits", technique="stateful property-based testing, differential against a fresh session",
 state=[("ParseSession", "two generations of arenas, the last root, last tokens and diagnostics", "projects/oak-core/src/parser/session.rs")])
prop("C05", "Lexers and parsers end, without panic, on any text",
 """For every language and every text (truncated, garbled, deeply repeated, arbitrary Unicode), lexing and parsing end in time proportionate to the text and without panicking; they do the same on the same text every time,
 and every diagnostic points into the text or at its end.""",
 ["inputs"], "all texts for 110 languages and languages made up on the spot", "The samples are well-formed; a loop that makes no progress or a slice inside a character needs a damaged text.",
 ["projects/oak-core/src/lexer/mod.rs", "projects/oak-core/src/parser/state.rs", "projects/oak-core/src/source/cursor.rs", "projects/oak-core/src/parser/pratt.rs"],
 [("advance_if_dead_lock", "projects/oak-core/src/lexer/mod.rs"), ("ParserState::ensure_progress, error recovery", "projects/oak-core/src/parser/state.rs")],
 "langs", "robustness testing under a step budget (hook); nesting up to 40 levels, so stack depth is not explored; endless loops or panics in 14 languages are known findings", hook="step budget: a lexer or parser that consumes over 1,000,000 + 4,000 x length cursor steps is endless")
