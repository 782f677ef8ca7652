#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
T = "core/src/typed/template/mod.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["results of the parse and check entry points"], hook_needed=None)))
IN = ["inputs"]
IP = ["inputs", "programs"]
p("C01", "Literals match exactly their own text, at any position",
  "A string or character literal in a grammar matches at a position exactly when the input continues there with the same bytes, and a case-insensitive literal exactly when it does so up to ASCII letter case; on a match it consumes exactly the literal's length, and skipping N characters succeeds exactly when N characters remain. What a case-insensitive literal records as its content is the matched slice of the input. Nothing is consumed and nothing panics when the input ends inside the literal or when a multi-byte character straddles its length.",
  IN, "every input text, every position in it, literals of every length including empty and multi-byte ones",
  "tests try one or two inputs per literal; a wrong comparison that only shows for a prefix, a byte outside A-Z/a-z, or a multi-byte neighbour is never sampled",
  ["core/src/position.rs", T, "generator/src/typed/output.rs"], [("match_string, match_insensitive, skip", "core/src/position.rs"), ("Str, Insens, Char, SkipChar", T)])
p("C02", "Character ranges and built-in character rules accept exactly their set",
  "A character range accepts one character exactly when it lies between its two ends, both included; the built-in rules for any character, start of input, end of input, line break and the ASCII classes accept exactly what their documentation lists (line break: CRLF, LF or CR, longest first). They consume exactly the bytes of that character and report it as their content.",
  IN, "every Unicode scalar value, in every byte length of its encoding, at every position",
  "there are over a million characters; tests try a handful per class and none at the edges of ranges or of encoding lengths",
  [T, "core/src/position.rs"], [("CharRange, any, soi, eoi, newline, ascii_*", T), ("match_range, match_char_by, next_char", "core/src/position.rs")])
p("C03", "Sequences match their parts in order with the trivia the operator asks for",
  "A sequence succeeds exactly when all its parts match one after another, each starting where the previous one, plus the trivia between them, ended. Between two parts the plain operator allows nothing, the optional-trivia operator runs the grammar's optional trivia rule and the mandatory-trivia operator its mandatory trivia rule; no trivia is consumed before the first or after the last part. This holds for sequences of any length and for mixed operators.",
  IP, "every input text; sequences of 2 to more than 16 parts with every mix of operators",
  "tests use one trivia definition and a few well-formed inputs; which operator's trivia applies at which gap shows only on inputs that put trivia in the wrong gap",
  ["core/src/sequence.rs", "generator/src/typed/generator.rs", "meta/src/parser.rs"], [("sequence_type!", "core/src/sequence.rs"), ("collect_sequence, embed_trivia", "generator/src/typed/generator.rs")])
p("C04", "Ordered choice takes the first alternative that matches",
  "A choice matches exactly as its first matching alternative does, in the order written, whatever the number of alternatives; it fails exactly when every alternative fails at the position. Later alternatives are never tried once one matched, even when the rest of the grammar then fails. The result records which alternative matched.",
  IP, "every input text; choices of 2 to more than 16 alternatives, nested and with alternatives that are prefixes of each other",
  "a swapped, skipped or repeated alternative shows only on inputs on which two alternatives differ, which tests do not enumerate",
  ["core/src/choice.rs", "generator/src/typed/generator.rs"], [("choice_type!", "core/src/choice.rs"), ("collect_choices", "generator/src/typed/generator.rs")])
p("C05", "Repetition and option are greedy, bounded, and undo an unfinished round",
  "A repetition with bounds matches its item as often as possible up to the upper bound and fails exactly when it cannot reach the lower one; an optional item matches if it can and otherwise consumes nothing. Trivia is taken only between two rounds, and the trivia before a round that then fails is given back. Unbounded, at-least, at-most, exact and bounded forms, each with each trivia operator, obey the same rule, and the result lists the rounds in order.",
  IP, "every input text; every repetition form, bound and trivia operator",
  "off-by-one errors at a bound and trivia kept after the last round need inputs with exactly that many rounds and trailing trivia",
  ["core/src/typed/template/repetition.rs", "core/src/typed/traits.rs", "generator/src/typed/generator.rs"], [("RepMinMax", "core/src/typed/template/repetition.rs"), ("Option as a node", "core/src/typed/traits.rs"), ("RepRange", "generator/src/typed/generator.rs")])
p("C06", "Predicates look ahead without any effect",
  "A positive predicate succeeds exactly when its operand matches at the position and a negative one exactly when it does not, nested predicates included. Whether it succeeds or fails, a predicate consumes no input, leaves the stack as it was and contributes no pairs.",
  IP, "every input text; predicates nested in each other and around stack operations",
  "effects of a predicate are visible only to what follows it; tests check a few verdicts only",
  [T], [("Positive, Negative", T)])
p("C07", "Stack operations push, match and remove exactly the texts they name",
  "Pushing records the text its operand matched; peek and pop match the most recently pushed text, the latter removing it; peek-all and pop-all match all texts from the newest to the oldest, the latter emptying the stack; drop removes the newest without matching; a slice matches the selected texts in the order in which they were pushed. Slice indices count from the oldest text, negative ones from the newest; an index out of range, or an operation on an empty stack, makes the match fail and never panics. An empty selection matches the empty text.",
  ["inputs", "programs", "histories"], "every input text; every slice; every sequence of stack operations that a grammar can run within the bounds",
  "the outcome depends on the whole history of pushes and on equal or overlapping texts; tests try one history per operation",
  [T], [("peek, pop, drop, push, peek_all, pop_all, PeekSlice1, PeekSlice2", T), ("constrain_idxs, stack_slice, peek_spans", T)])
p("C08", "A failed attempt leaves the stack as it was",
  "When an alternative, an optional item, a round of a repetition or a predicate's operand fails after changing the stack, the parse goes on with exactly the stack it had before that attempt: texts pushed during it are gone and texts removed during it are back, in their order. Changes made by an attempt that succeeds stay, also when it is nested in other attempts, whatever succeeded before or after them.",
  ["inputs", "programs", "histories"], "every input text; every nesting of choice, option, repetition and predicates around pushes, pops and drops within the bounds",
  "needs an attempt that fails after changing the stack, followed by an operation that shows the stack; the number of histories is exponential",
  ["core/src/choice.rs", "core/src/typed/template/repetition.rs", "core/src/typed/traits.rs", T], [("snapshot, restore and clear_snapshot around attempts", "core/src/choice.rs"), ("restore_on_none", T), ("Option as a node", "core/src/typed/traits.rs")])
p("C09", "Checking and parsing agree",
  "For every rule and input, the checking entry points accept exactly the inputs that the parsing entry points accept, stop at the same position, and on rejection give the same failure report.",
  IP, "every input text; every construct of the language, in all entry points",
  "each construct implements the two operations separately; a difference shows only on some inputs of some constructs",
  [T, "core/src/choice.rs", "core/src/sequence.rs", "core/src/typed/template/repetition.rs", "core/src/typed/traits.rs"], [("try_parse_with_partial and check_with_partial of every node", T), ("full_rule_struct!", "core/src/typed/traits.rs")])
p("C10", "Whole-input parsing accepts exactly when the match ends at the input's end",
  "A whole-input parse or check succeeds exactly when the corresponding prefix parse succeeds and ends at the end of the input; it yields the same tree. A prefix parse never depends on an end-of-input condition that the grammar does not state, and a whole-input failure after a full prefix match reports that the end of input was expected at that place unless something was tried further on.",
  IP, "every rule and every input text, in particular inputs with trailing text",
  "tests feed inputs that match completely or fail early; the gap is a matched proper prefix",
  ["core/src/typed/traits.rs"], [("try_parse, try_parse_partial, check, check_partial", "core/src/typed/traits.rs")])
p("C11", "Every span in a result is a valid, nested, ordered slice of the input",
  "In any parse result the span of each rule starts and ends on character boundaries inside the input, and its text is what the rule matched. Children lie inside their parent, in input order and without overlap, and the root starts where parsing started and ends at the reported end position. A node that keeps the text or character it matched (peek, pop, skipped or case-insensitive text, a character) keeps exactly the slice it consumed. No input makes the parser panic, loop or read outside the input.",
  IP, "every UTF-8 input, multi-byte characters included",
  "a boundary or ordering error needs particular multi-byte text; tests use ASCII",
  ["core/src/typed/traits.rs", "core/src/position.rs", "core/src/span.rs", "core/src/token/mod.rs"], [("span creation in full_rule_struct!", "core/src/typed/traits.rs"), ("Position::span", "core/src/position.rs")])
p("C12", "The pair tree lists exactly the rules that took part in the match",
  "The tree of pairs has one node for each non-silent rule that took part in the match, with that rule's name and span, nested and ordered as matched: through sequences, choices, options, repetitions and pushes. Silent rules, trivia and predicates contribute no pairs, nor does anything inside them; failed attempts leave none. Converting and printing the tree keep rule, span and order.",
  IP, "every input text; every nesting of the constructs",
  "tests compare a few trees of well-formed inputs; which pairs survive backtracking depends on the input",
  ["core/src/typed/traits.rs", "core/src/token/mod.rs", "core/src/sequence.rs", "core/src/choice.rs", "generator/src/typed/generator.rs"], [("PairContainer, PairTree", "core/src/typed/traits.rs"), ("create_rule", "generator/src/typed/generator.rs"), ("Pair", "core/src/token/mod.rs")])
p("C13", "A failure report gives the furthest place tried and the rules tried there",
  "When a parse fails, the reported position is the furthest one at which a rule that calls no other rule was tried, or a stack operation went wrong, and it never lies behind one of those. For that position the report names every such rule that failed there as expected, and, under a negative predicate, every one that matched there as unexpected, grouped by the innermost enclosing rule that began somewhere else, along with stack errors at that place. Nothing tried at earlier positions is listed.",
  IP, "every rejected input; every nesting of rules, predicates and stack operations within the bounds",
  "the furthest position depends on the whole search; tests compare a few messages",
  ["core/src/typed/tracker.rs", "core/src/typed/traits.rs"], [("Tracker::prepare, record, get_entry", "core/src/typed/tracker.rs"), ("record_option_during", "core/src/typed/tracker.rs")])
p("C14", "Failures turn into an error message without panic, at the right place",
  "Whatever input was rejected, building the error and printing it succeed, and the error carries the line and column of the furthest place tried; the message repeats the part of the line before that place and lists each expected and unexpected rule once. This also holds for empty input, at the end of the input, after a trailing line break, between CR and LF and among multi-byte characters.",
  IP, "every rejected input within the bounds, multi-byte characters and every kind of line break included",
  "tests print a few errors in the middle of ASCII or Greek lines",
  ["core/src/typed/tracker.rs", "core/src/position.rs"], [("collect, collect_to_message", "core/src/typed/tracker.rs"), ("line_of, line_col", "core/src/position.rs")])
p("C15", "Line and column numbers are right for every position",
  "For every valid position the line number is one more than the number of line breaks (LF or CRLF) that end at or before it, and the column is one more than the number of characters between the start of that line and the position; a CR that is not followed by an LF before the position counts as a character.",
  IN, "every UTF-8 text and every character boundary in it",
  "tests cover a few texts; CR, CRLF, multi-byte characters and the end of input interact",
  ["core/src/position.rs"], [("line_col", "core/src/position.rs")])
p("C16", "Lines of a position or span are exactly the lines of the text that cover it",
  "The line of a position is the slice from after the previous LF (or the start of input) up to and including the next LF (or the end of input). The lines of a span are the full lines from the one holding its start to the one holding its end, each once, in order and adjacent; together they are the shortest run of whole lines that holds both ends of the span. The end of the input begins no line: a span that starts there has none.",
  IN, "every UTF-8 text, every position and every span in it",
  "tests use two or three texts; empty lines, ends at line breaks and empty spans are rarely covered",
  ["core/src/position.rs", "core/src/span.rs"], [("find_line_start, find_line_end, line_of", "core/src/position.rs"), ("Lines, LinesSpan", "core/src/span.rs")])
p("C17", "Positions and spans can only denote valid slices",
  "A position or span is created exactly when its offsets are ordered, inside the text and on character boundaries; otherwise creation reports failure. Taking a sub-span with any kind of range gives the same slice as taking it from the text, or fails when that fails, and never panics; splitting, start, end and text agree with the offsets; merging two spans gives the smallest span covering both exactly when they touch or overlap. Positions of one text are ordered as their offsets.",
  IN, "every UTF-8 text, all offsets inside and outside it, all range kinds",
  "tests try a few offsets and range kinds; overflow and boundaries are not sampled",
  ["core/src/span.rs", "core/src/position.rs"], [("Span::new, get, split, merge_spans", "core/src/span.rs"), ("Position::new, span, cmp", "core/src/position.rs")])
p("C18", "Printing a position or span as a snippet is total and shows the right text",
  "Printing any span or position of any text succeeds. The snippet shows, with their right line numbers, the line or lines that hold the start and the end, the text of those lines unchanged except that line breaks, and tabs, are made visible; the marker row under a one-line span covers the columns of the marked text, and for a position it points at its column. A span over several lines shows the first and last line, and an intermediate one or an ellipsis when there are more.",
  IN, "every text within the bounds, every span and position in it, empty ones and the end of input included",
  "the layout depends on line numbers, widths and where the span starts and ends; tests print a few",
  ["core/src/formatter.rs", "core/src/span.rs", "core/src/position.rs"], [("display_span, display_position", "core/src/formatter.rs"), ("Partition, Partition2, FormatOption", "core/src/formatter.rs")])
p("C19", "Calling a rule with arguments means its body with the arguments put in",
  "A call of a parameterised rule matches exactly the inputs, with the same end, as the rule's body with every parameter replaced by the corresponding argument, all at once and everywhere in the body, also inside arguments of other calls. This holds for silent and non-silent parameterised rules, for arguments that are themselves expressions or calls, and when a parameter has the same name as a rule or as a parameter of the caller.",
  IP, "every input text; the call shapes of the grammar suite",
  "substitution goes wrong for particular name clashes and nestings which the sample grammars do not have",
  ["generator/src/typed/generator.rs", "meta/src/parser.rs"], [("inline_silent_rules_with_args", "generator/src/typed/generator.rs"), ("replace", "meta/src/parser.rs"), ("generic rule structs", "generator/src/typed/generator.rs")])
p("C20", "Accessor methods return exactly the matched sub-rules, in order",
  "For each rule mentioned in a rule's body, the generated accessor returns the matched occurrences of that rule which are direct parts of the body: one reference for a plain mention, an option (never one inside another) under optionals and alternatives, a list under a repetition, a tuple in the order of mention when it is mentioned several times. Each returned node is the one matched at that place, with its span.",
  IP, "every input text; the body shapes of the grammar suite",
  "an accessor that takes the wrong part only differs on inputs where the parts differ",
  ["generator/src/typed/getter.rs", "core/src/choice.rs"], [("GetterByName", "generator/src/typed/getter.rs"), ("choice accessors", "core/src/choice.rs")])
p("C21", "Imported rules behave as their own grammar defines",
  "A rule used from another grammar file matches exactly as it does in that file, with that file's trivia, helper rules and meaning of names, even when the importing grammar has rules of the same names. Pairs of imported rules appear in the importing grammar's tree under the imported module's name, and built-in rules can be used under an alias.",
  IP, "every input text; the import shapes of the grammar suite",
  "tests compile imports and match one or two inputs",
  ["generator/src/typed/module.rs", "generator/src/typed/generator.rs", "meta/src/parser.rs"], [("ModuleSystem", "generator/src/typed/module.rs"), ("process_rules", "generator/src/typed/generator.rs"), ("SubRule conversions", "generator/src/typed/output.rs")])
p("C22", "Recursive rules parse nested input",
  "Directly and mutually recursive rules compile to a parser that matches exactly what the recursive definition says, to the depth of the input, and gives the nested tree; every rule may be the entry.",
  IP, "every input text within the bounds; direct and mutual recursion, in any position of a rule's body",
  "tests use JSON and a calculator with a few inputs",
  ["generator/src/typed/generator.rs"], [("collect_reachability, boxed rules", "generator/src/typed/generator.rs")])
p("C23", "The grammar reader groups operators by the documented precedence",
  "In a grammar, prefix operators apply outside postfix operators, the sequence operators bind tighter than choice, operators of one level are grouped in the order written, parentheses group, and the trivia marks of a repetition or sequence belong to the operator they are written at. The structure that the reader returns reflects exactly this for every expression, whatever the spacing.",
  ["inputs"], "every arrangement of operators, operands and parentheses within the bounds",
  "there are exponentially many arrangements of operators; tests parse a few",
  ["meta/src/parser.rs", "meta/src/grammar.pest"], [("PrattParser, parse_node_inner", "meta/src/parser.rs"), ("expression rules", "meta/src/grammar.pest")])
p("C24", "The grammar reader decodes literals exactly",
  "A quoted string, raw string, case-insensitive string or character in a grammar denotes exactly the characters written, with each escape (\\n, \\r, \\t, \\0, \\\\, quotes, \\x with two and \\u with its hexadecimal digits) replaced by the character it stands for. Malformed escapes, and escapes that stand for no character, are reported as errors and never accepted or panicked on.",
  ["inputs"], "every literal body within the bounds",
  "tests contain a few escapes; combinations and boundaries of escapes are not sampled",
  ["meta/src/parser.rs", "meta/src/grammar.pest"], [("unescape, literal parsing", "meta/src/parser.rs"), ("string, raw_string, char, escape", "meta/src/grammar.pest")])
p("C25", "The grammar reader takes counts and slice indices at their written value",
  "Counts and slice indices in a grammar are read as the decimal numbers written, sign included, with a missing end meaning no bound, and each of the forms gives exactly its documented bounds. Numbers that do not fit, and repetitions that can never match as written, are reported as errors and do not change the value or panic.",
  ["inputs"], "every spelling of bounds within the bounds of the check",
  "the boundary values of the number types and the mixed forms are not in the tests",
  ["meta/src/parser.rs"], [("repetition and slice parsing", "meta/src/parser.rs")])
p("C26", "Reading a grammar never panics",
  "For any text, reading it as a grammar ends with either the rules or an error that can be printed, never with a panic or an endless loop.",
  ["inputs"], "every text within the bounds, valid or not",
  "tests read well-formed grammars",
  ["meta/src/parser.rs", "meta/src/grammar.pest", "meta/src/error.rs"], [("parse and its helpers", "meta/src/parser.rs")])
p("C27", "The grammar reader keeps every rule with its name, parameters and documentation",
  "The reader returns the rules of the file in the order written, each once, with exactly its name, its parameters in order, whether it is silent, and its documentation lines; grammar-level documentation and imports are returned with their path and alias. Comments and white space change nothing.",
  ["inputs"], "every arrangement of headers, parameters, silence marks, documentation and comments within the bounds",
  "tests check a few files",
  ["meta/src/parser.rs", "meta/src/grammar.pest"], [("parse_rule, parse_grammar, imports", "meta/src/parser.rs")])
p("C28", "Unicode property rules accept exactly the characters with that property",
  "Each built-in Unicode property rule accepts one character exactly when the Unicode tables give that character the property of the rule's name, and then consumes exactly that character and records it.",
  IN, "every Unicode scalar value, for every property name",
  "there are over 200 rules and over a million characters; tests touch a few",
  ["core/src/typed/unicode.rs", T], [("unicode! wrappers", "core/src/typed/unicode.rs"), ("match_char_by", T)])
p("C29", "Every view of a result shows the same match",
  "The tuple of a sequence, by reference or by value, lists the matches of its parts in order; of a choice exactly the getter of the alternative that matched gives it and the others nothing; iterating a repetition, by reference, by value or backwards, gives all its rounds in order; dereferencing a predicate or a push gives what its operand matched. Two results are equal exactly when the same parts matched with the same contents and spans, equal ones hash alike, and a copy equals the original. Converting a pair tree keeps spans and structure. A repetition's declared bounds, a literal's text and a type's rule are those of the grammar.",
  IP, "every input within the bounds; sequences and choices of 2 to 20 parts",
  "a view that mixes up parts is wrong only for particular lengths, positions or contents; tests look at single fields",
  ["core/src/sequence.rs", "core/src/choice.rs", "core/src/typed/template/repetition.rs", T, "core/src/token/mod.rs", "core/src/span.rs", "generator/src/typed/generator.rs"],
  [("as_tuple, into_tuple", "core/src/sequence.rs"), ("choice_N", "core/src/choice.rs"), ("iter, into_iter, PartialEq, Hash, Clone", "core/src/typed/template/repetition.rs"), ("Pair::convert", "core/src/token/mod.rs"), ("PartialEq of Span", "core/src/span.rs")])
p("C30", "Grammar sources add up and derive attributes do not change the matching",
  "A parser derived from several grammar sources, inline or files, behaves as the one grammar made of all their rules, trivia, and imports, whichever source a rule is in. The attributes that tune the generated code (pairs, spans, accessors, boxing, warnings, name of the rules module) and the kind of type the derive is put on leave verdicts, ends, pairs and failure reports as they are.",
  IP, "every input text within the bounds; one grammar in three sources under seven combinations of attributes",
  "the generated code differs per attribute and source, the tests use one source and hardly any attribute",
  ["generator/src/config.rs", "generator/src/typed/attr.rs", "generator/src/typed/generator.rs", "meta/src/parser.rs"], [("collect_data", "generator/src/config.rs"), ("parse_derive", "generator/src/typed/attr.rs"), ("FromIterator for GrammarModule", "meta/src/parser.rs"), ("create_rule", "generator/src/typed/generator.rs")])
p("C31", "Grammar rules, expressions and errors are located where the author wrote them",
  "Reading a grammar file, every rule and every expression in it carries the file and the part of the text it was written in: a rule from its documentation or name to the end of its body, an operator's expression from its first operand or sign to its last, a parenthesised one the text inside; only white space and comments may follow within the part. Something without a meaning (an impossible escape, a count or an index out of range, arguments of an import, a missing file) is reported at exactly that thing, with the right line and column; a text of the wrong form at a place in the text. A sign that the message of such an error offers would be accepted at that place.",
  "the grammar reader (pest3_meta::parser)", "every text within the bounds, around each construct of the language",
  "places depend on white space, nesting, sign order and character widths; tests print a few errors",
  ["meta/src/parser.rs", "meta/src/error.rs"], [("ParseNode spans in parse_rules, parse_node, infix/prefix/postfix", "meta/src/parser.rs"), ("Span::union, start, end", "meta/src/parser.rs"), ("Error::new_from_span", "meta/src/parser.rs"), ("rename_meta_rule", "meta/src/error.rs")])
p("C32", "Deriving accepts exactly the grammars whose references are right",
  "The derive macro accepts a grammar, from one source or several, with its imported files, exactly when it can be read and every name in it stands for something that fits: a parameter (without arguments), a rule with as many arguments as it has parameters, a rule of an imported file, a built-in rule, where only `peek` takes a slice and only `push` one argument, or an import of one of these; never a module, a missing or a misspelt name, or a path that goes on behind a rule. What is inlined counts where it is called. `~` and `^`, between parts or in repetitions, need their trivia rule in the same file. No two of the rules, trivia and imports of a file have the same name, and no rule is called `_`, `self`, `Self`, `super` or `crate`. Something wrong is refused while deriving, never ignored; a derive attribute that needs a value of some kind is refused with any other, and so is an item without a grammar or with one that does not exist.",
  "the derive macro's entry point (pest3_generator::typed::derive_typed_parser)", "every reference, argument list, operator, definition and attribute within the bounds",
  "a wrong reference that is let through becomes a parser for another language or an error in code that the author never wrote; the tests derive only grammars that are right",
  ["generator/src/typed/module.rs", "generator/src/typed/generator.rs", "generator/src/typed/output.rs", "generator/src/typed/attr.rs", "generator/src/config.rs"],
  [("ModuleSystem::resolve, RuleGenerics::call, check_argc, alias, insert_rule", "generator/src/typed/module.rs"), ("process_rules, process_expr, collect_used_rule, inline_silent_rules_with_args", "generator/src/typed/generator.rs"), ("add_option_trivia, add_mandatory_trivia", "generator/src/typed/output.rs"), ("parse_derive", "generator/src/typed/attr.rs"), ("get_string, get_bool, collect_data", "generator/src/config.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
