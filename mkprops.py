#!/usr/bin/env python3
"""Writes properties.jsonl; the properties are stated here because this form is easier to edit."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Tokens cover every text exactly and follow one lexical grammar",
 "For every text, the tokens cover it from the first to the last character, in order, without gap, overlap or change, and tokenizing never crashes. "
 "Operators and keywords are recognised only where no symbol character follows (so `foo-bar`, `lets` and `//x` are symbols), a string literal ends at its first unescaped quote or at the end of the text, a comment at the end of its line, and every other run is the symbol, number or whitespace it spells. "
 "Every malformed escape, malformed number and illegal character, and nothing else, is reported with its place inside its token.",
 ["inputs"], "every unicode text: valid programs, fragments, damaged programs, string literals with arbitrary escapes",
 "The unit tests tokenize a handful of hand-written ASCII lines; adjacency, escapes and multi-byte characters combine without limit.",
 ["src/tokenizer.rs", "src/tokens.rs"], [("tokenize / parse_tokens", "src/tokenizer.rs"), ("keyword_tag boundary rule", "src/tokenizer.rs"), ("parse_escape", "src/tokenizer.rs")])

prop("C02", "Every text is parsed, or rejected with a readable report; never a crash",
 "For every text, parsing ends with either a program or a syntax error, whatever is malformed, unclosed or deeply nested in it. "
 "Every program can be printed and every syntax error can be rendered as a report that says there is an error; none of this panics, overflows the stack or runs forever.",
 ["inputs"], "every unicode text, including edited programs, strings over several lines and nests thousands of levels deep",
 "Tests parse a few programs that are known to be fine and never render the report of a wrong one.",
 ["src/parser.rs", "src/error.rs", "src/tokenizer.rs", "src/stack.rs"], [("parse_script", "src/parser.rs"), ("fmt_syntax_error / print_error_lines", "src/error.rs")])

prop("C03", "Programs parse to the tree their precedence and brackets prescribe",
 "Any combination of literals, symbols, groups, quotes, lists, maps, blocks, indexing, arithmetic, comparison, ranges, negation, logic, calls, conditionals, loops, definitions, lambdas, macros and pipelines parses to exactly the tree prescribed by the language: `@` binds tightest, then `* // %`, `+ -`, comparisons and `to`, `&& ||`, calls, and pipes; binary operators associate to the left. "
 "No part of a program is dropped, duplicated, reordered or attached elsewhere.",
 ["programs"], "every program that can be built from the constructs of the language, nested in any order",
 "Tests check a few fixed expressions; precedence and bracket handling interact over all pairs of constructs at every depth.",
 ["src/parser.rs"], [("precedence levels", "src/parser.rs parse_expression*"), ("parse_statement", "src/parser.rs")])

prop("C04", "Spaces, newlines and comments between tokens never change a program",
 "Two texts made of the same tokens mean the same program, or are both rejected, whatever spaces, tabs, newlines (also CR LF) and `#` comments stand between the tokens, at the start and at the end.",
 ["programs"], "every token sequence, valid or not, and every pair of layouts of it",
 "Tests use one layout per program.",
 ["src/parser.rs", "src/tokenizer.rs"], [("whitespace and comment removal, adjacency rule", "src/parser.rs parse_script")])

prop("C05", "Literals denote exactly the text or number that is written",
 "A string literal denotes exactly the characters written in it, with the escapes `\\\" \\\\ \\b \\f \\n \\r \\t \\u{hex}` standing for the characters they name, wherever the literal occurs. "
 "Every 64-bit integer literal and every decimal literal denotes exactly the number written (decimals: the nearest double), and an integer that does not fit is refused instead of changed.",
 ["inputs"], "every text in every mixture of raw and escaped characters; every integer and decimal numeral",
 "Tests hold a few literals; the conversion must be exact for all values.",
 ["src/parser.rs", "src/tokenizer.rs"], [("parse_string", "src/parser.rs"), ("parse_integer / parse_float", "src/parser.rs"), ("number_literal / parse_escape", "src/tokenizer.rs")])

prop("C06", "A syntax error report shows the line, its number and the offending text",
 "The report of a syntax error shows the number of the line on which the error is, the text of that line (up to 72 characters of it), and marks exactly the offending part of it, wherever in a program of any number of lines the error is.",
 ["programs"], "every program of valid lines, blank lines, comments and strings over several lines (any characters, LF or CR LF) with an error at any place",
 "No test renders an error report.",
 ["src/error.rs", "src/parser.rs"], [("print_error_lines", "src/error.rs")])

prop("C07", "Highlighting and hints keep the typed line as it is",
 "For every line, the highlighted form shown by the line editor differs from the line only by colour codes, ends with the colour switched off, and what the editor takes to be its visible part is the line itself. "
 "A hint for a known command is given exactly when the line is a beginning of it, and completes it.",
 ["inputs"], "every text without escape characters, including invalid literals and characters",
 "No test calls the line editor's helper.",
 ["src/bin.rs"], [("syntax_highlight", "src/bin.rs"), ("strip_ansi_escapes", "src/bin.rs"), ("Hinter for DuneHelper", "src/bin.rs")])

exec(open('/verif/mkprops2.py').read())

prop("C35", "The cost of parsing grows polynomially with nesting depth",
 "Doubling the nesting depth of any mixture of brackets, blocks, lists, maps, quotes, lambdas, conditionals, loops, calls, operators and pipes multiplies the work of parsing by at most a fixed factor; it never grows exponentially with the depth.",
 ["programs"], "every nest built by repeating any pattern of up to three constructs",
 "Tests parse shallow programs only, where exponential backtracking is invisible.",
 ["src/parser.rs"], [("backtracking alternatives in parse_expression_prec_seven and parse_expression_prec_one", "src/parser.rs")])

P.sort(key=lambda p: p['id'])
with open('/verif/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
