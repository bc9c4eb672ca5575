#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Positions sent and accepted denote exactly the intended source text",
     "A position the client sends selects exactly the character at that zero-based line and UTF-16 column, and every position or range the server "
     "sends back is the line and UTF-16 column of the exact source characters it is about, so the two conversions are inverse to each other. "
     "A column past the end of its line means the end of that line; a line past the end of the document denotes no symbol. "
     "UTF-16 is the position encoding the server announces.",
     ["inputs"], "every document (any Unicode text, \\n or \\r\\n line ends, with or without a final line end) and every line/column pair",
     "No existing test converts a position; they only compare character offsets of ASCII text.",
     ["src/lsp_utils.rs", "src/main.rs"],
     [("lsp_pos_to_offset / offset_to_lsp_pos / range_to_lsp", "src/lsp_utils.rs"), ("prepare_rename", "src/main.rs")],
     ["textDocument/prepareRename", "ranges of all answers"])
prop("C02", "Semantic highlighting covers exactly the tokens, with the right place and type",
     "Decoding the semantic tokens of a document yields, in document order, exactly one entry per comment, number, hexadecimal number, string, "
     "local or global name, type name, function modifier and declare/define keyword, each with the line, UTF-16 column and UTF-16 length of that token. "
     "The token type, looked up in the announced legend, is comment, number, number, string, variable, variable, type, modifier or keyword respectively; all other tokens get no entry.",
     ["inputs"], "every document, including ones with syntax errors and non-ASCII text",
     "The delta encoding is not tested at all; any test fixes one layout of tokens.",
     ["src/semantic_token.rs", "src/main.rs"],
     [("semantic_tokens_from_tokens", "src/semantic_token.rs"), ("convert_to_lsp_tokens", "src/semantic_token.rs"), ("LEGEND_TYPE", "src/semantic_token.rs"),
      ("semantic_tokens_full", "src/main.rs")],
     ["textDocument/semanticTokens/full", "initialize (legend)"])
prop("C03", "Definition, declaration and references find exactly the symbol's occurrences",
     "For a position on any occurrence of a global variable, function, debug annotation, label or local variable, definition / declaration / references answer with "
     "exactly the definitions / declarations / uses of that same symbol in the document, each once, and the range of the occurrence as origin. "
     "Labels and local variables belong to the function definition that contains them, so equal names in different functions, or of different kinds, never mix. "
     "A position on no symbol gets no answer. The three requests are announced to the client.",
     ["inputs"], "every document and every position in it",
     "One test compares the index of one small module; scoping, repeated names, and the lookup by position are not reached.",
     ["src/hir_index.rs", "src/main.rs"],
     [("create_index", "src/hir_index.rs"), ("HIRIndex::add_internal", "src/hir_index.rs"), ("find_symbol_at_position", "src/hir_index.rs"),
      ("get_by_symbol_kind", "src/hir_index.rs"), ("get_use_def_ranges", "src/main.rs")],
     ["textDocument/definition", "textDocument/declaration", "textDocument/references"],
     [{"name": "HIRIndex", "meaning": "per symbol: declarations, definitions, uses; plus occurrences by start offset", "where": "src/hir_index.rs"}])
prop("C04", "Rename edits all occurrences of the symbol, nothing else; refuses bad names",
     "Renaming a symbol to a valid new name yields exactly one edit per occurrence (declaration, definition or use) of that symbol, in that document only, replacing precisely the occurrence with the new name "
     "including the symbol's sigil, whether or not the client typed the sigil. "
     "A name that is empty, starts with a digit (allowed only for debug annotations), or would not be read back as one single name of the same kind (invalid characters, trailing colon, keyword or type name as a label) is refused with an error and no edit, as is a rename at a position without a symbol. Rename and prepareRename are announced.",
     ["inputs"], "every document, every position and every requested name",
     "No test renames anything; completeness of the edits quantifies over all occurrences of all symbols.",
     ["src/rename.rs", "src/main.rs"],
     [("get_rename_edits", "src/rename.rs"), ("rename", "src/main.rs"), ("prepare_rename", "src/main.rs")],
     ["textDocument/rename"])
prop("C05", "Renumbering shifts exactly the numbered names of that kind and scope",
     "A relative rename (+n or -n) on a numbered name, and the shift code action (which is +1), rewrite every occurrence of every name of the same kind and scope whose trailing decimal number is at least "
     "the chosen one's, keeping the text before the number and replacing number k by the absolute value of k plus the shift; all other names stay untouched. "
     "The code action offers the same edit whether it is delivered at once or on resolve, exists exactly for names that end in a number, and a relative rename of other names or by something that is not a representable number is refused.",
     ["inputs", "configurations"], "every document, every numbered name, every shift, and clients with and without lazy code-action resolution",
     "One test covers splitting off the number of eight names; scope, threshold, big numbers and the two delivery modes are not reached.",
     ["src/rename.rs", "src/main.rs"],
     [("extract_number_from_identifier", "src/rename.rs"), ("get_shift_edits", "src/rename.rs"), ("rename / code_action / do_code_action_resolve", "src/main.rs")],
     ["textDocument/rename", "textDocument/codeAction", "codeAction/resolve"])
prop("C06", "Diagnostics report every syntax and symbol problem, and nothing else",
     "The published diagnostics contain one entry for each use of a symbol that is neither declared nor defined, one for each definition after the first of a symbol, pointing back to the first one, and one for each branch or phi "
     "instruction from which no target could be read, each at the exact source range, and no such entry for any other symbol or instruction. "
     "In addition each syntax error found is reported once, inside of the document, and a document without syntax errors gets no syntax diagnostic.",
     ["inputs"], "every document",
     "No test looks at diagnostics; the tests only count the parser errors of two documents.",
     ["src/diagnostics.rs", "src/main.rs"],
     [("diagnostics_from_index", "src/diagnostics.rs"), ("diagnostics_from_statements", "src/diagnostics.rs"), ("diagnostics_from_parser", "src/diagnostics.rs"),
      ("on_change", "src/main.rs")],
     ["textDocument/publishDiagnostics"])
prop("C07", "Control-flow hints and graph show exactly the branch edges between basic blocks",
     "For each function, the edges shown are exactly the pairs (labelled block, target) for which a branching instruction of that block names that target; phi operands never count. "
     "Each labelled block with incoming edges gets one hint right behind its label that lists each block branching to it once, linked to that block's label, and the exported DOT graph of the requested function contains exactly these edges. "
     "Unknown commands, documents and functions are refused with an error. Hints and the command are announced.",
     ["inputs"], "every document and every function in it",
     "One test checks the edge table of one function; neither the hints nor the graph text are tested.",
     ["src/hir_index.rs", "src/control_flow_graph.rs", "src/main.rs"],
     [("create_index (incoming_bb_branches)", "src/hir_index.rs"), ("Instruction::is_branching", "src/hir_parser.rs"),
      ("create_cfg_dot_visualization", "src/control_flow_graph.rs"), ("inlay_hint, execute_command", "src/main.rs")],
     ["textDocument/inlayHint", "workspace/executeCommand", "hyperir/showDot"])
prop("C08", "Outline, folding, code lenses and end-of-function hints match the functions",
     "The outline lists exactly the global variable definitions and the function definitions with their name and full range; there is one folding range per function definition and per basic block, spanning exactly its lines and stating how many basic blocks or instructions it holds. "
     "A function with exactly one definition gets one control-flow code lens at its name that carries the document and the function name, other functions get none, and each function definition ends with a hint that names it and links to its name. All four features are announced.",
     ["inputs"], "every document",
     "No test calls any of these requests.",
     ["src/main.rs", "src/hir_index.rs"],
     [("document_symbol", "src/main.rs"), ("folding_range", "src/main.rs"), ("code_lens", "src/main.rs"), ("inlay_hint", "src/main.rs")],
     ["textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/codeLens", "textDocument/inlayHint"])
prop("C09", "Back traces and external sources are shown faithfully and safely",
     "An instruction whose debug reference leads to a JSON object with a back trace gets one hint behind the reference: the most relevant frame (first frame of the best matching translator category, else the first frame outside of the code-generation folders), its name cut to 48 characters, followed by a tooltip with all frames in order; symbol names in tooltips contain only characters that are harmless in Markdown code. "
     "A frame's file and line come from `file:line` (line must be an unsigned 32-bit number), a missing name falls back to the file name, and files are linked to the first workspace folder that contains them. "
     "The definition of a declared function whose debug annotation is `file:line` additionally leads to that line of that file if it exists.",
     ["inputs", "configurations"], "every document, every JSON annotation and every set of workspace folders",
     "Seven tests parse single frames without workspace folders; choice of frame, shortening, Markdown, links and positions are not tested.",
     ["src/backtrace.rs", "src/hir_index.rs", "src/main.rs"],
     [("parse_backtrace_from_json", "src/backtrace.rs"), ("identify_relevant_frames", "src/backtrace.rs"), ("sanitize_markdown_code", "src/backtrace.rs"),
      ("shorten_name / shorten_filepath / format_frame_as_md", "src/backtrace.rs"), ("resolve_relative_path", "src/backtrace.rs"), ("create_index (external_defs)", "src/hir_index.rs")],
     ["textDocument/inlayHint", "textDocument/definition"])
prop("C10", "No document and no request can crash or wedge the server",
     "Whatever text a document contains and whatever well-formed request with whatever positions, names, command arguments or code-action data the client sends, the server answers it with a result or an error and stays able to serve every later request. "
     "No input makes it panic, overflow, index out of bounds or loop forever.",
     ["inputs", "histories"], "every sequence of documents, changes and requests",
     "Panics hide in rare combinations (multi-byte characters, huge numbers, stale code actions); the tests only feed valid ASCII documents.",
     ["src/main.rs", "src/hir_index.rs", "src/rename.rs", "src/backtrace.rs", "src/lsp_utils.rs", "src/semantic_token.rs", "src/diagnostics.rs"],
     [("checked conversions and lookups in all handlers", "src/main.rs"), ("char_to_byte slicing", "src/hir_index.rs"), ("range_to_lsp returning None", "src/lsp_utils.rs")],
     ["every request and notification"])
prop("C11", "Answers always reflect the latest text of the right document",
     "After an open or change notification, every later request on that document is answered from the complete text of that latest notification (of several content changes the last one), even if the client does not wait for diagnostics, and never from an older text or another document. "
     "Diagnostics are published exactly once per notification, for that document and with that notification's version.",
     ["histories", "schedules"], "every sequence of open and change notifications on any number of documents, interleaved or pipelined with requests",
     "No test runs the server; the property is about histories and message interleavings.",
     ["src/main.rs"],
     [("on_change", "src/main.rs"), ("did_open / did_change", "src/main.rs"), ("document_map", "src/main.rs")],
     ["all requests", "textDocument/publishDiagnostics"],
     [{"name": "document_map", "meaning": "latest analysis per document URI", "where": "src/main.rs"}])
prop("C12", "The server keeps serving while it waits for the client",
     "While a command of the server waits for the client's answer (showing a control-flow graph), changes to any document, including the one the graph was made from, and all other requests are still processed and answered. "
     "When the client finally answers, the command completes.",
     ["schedules", "histories"], "every interleaving of an unanswered graph request with changes and requests",
     "Deadlocks need a client that answers late; no test runs the server or holds back an answer.",
     ["src/main.rs"],
     [("execute_command releases the document before awaiting the client", "src/main.rs"), ("no lock is held across an await in any handler", "src/main.rs")],
     ["workspace/executeCommand", "textDocument/didChange"])
prop("C13", "Hyper IR text is recognised faithfully, and errors stay local",
     "Every well-formed module is accepted without syntax errors, and every statement, signature, argument, basic block, assignment target, branch or phi target and debug reference in it is recognised with its exact text and place, independent of comments, blank lines, indentation and line-end style. "
     "A malformed line (other than an unclosed string) is reported and costs at most the statement it belongs to: well-formed statements on the lines before and after it are recognised all the same, and the valid tokens stay highlighted.",
     ["inputs"], "every document; modules of any size and shape",
     "About ten tests parse one sample each; the grammar's behaviour on all other combinations, and recovery from errors, is open.",
     ["src/hir_tokenizer.rs", "src/hir_parser.rs"],
     [("tokenizer", "src/hir_tokenizer.rs"), ("parser / parse_from_str", "src/hir_parser.rs")],
     ["textDocument/semanticTokens/full", "textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/rename"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
