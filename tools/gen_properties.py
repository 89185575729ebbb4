"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe)}})
LEX = "src/lexer/mod.rs"
p("C01", "Tokenizing never panics",
  "Tokenizing any text returns either tokens or a tokenizer error; it never panics. In particular no text, including text with multi-byte characters, unterminated strings or truncated constructs, makes it slice a string outside its bounds or inside a character.",
  "every Unicode string", "There are no end-to-end lexer tests; the quantifier is over all strings and the failures sit at rare byte boundaries.",
  [LEX, "src/lexer/position.rs", "src/lexer/keywords.rs"], [("slices computed from char_indices, find and literal lengths", LEX)], observe=["tokenize"])
p("C02", "Tokenizing terminates and always makes progress",
  "Tokenizing any text terminates: every step of the tokenizer either consumes at least one character of the remaining text or returns. No text makes it loop without consuming input or recurse without consuming input.",
  "every Unicode string", "Termination over all strings cannot be sampled.",
  [LEX], [("main loop of tokenize and make_token", LEX)], observe=["tokenize"])
p("C03", "Tokens tile the source text",
  "The tokens of a text come in source order, their byte ranges never overlap, each token's byte range covers exactly the characters it was recognised from, and every character outside the tokens is whitespace (space, tab, carriage return, newline). Text is never skipped, duplicated or read twice.",
  "every Unicode string", "The existing tests build tokens by hand; none compares token ranges with a source text.",
  [LEX, "src/lexer/position.rs"], [("make_token advances text and position by the same lexeme", LEX), ("Position += &str", "src/lexer/position.rs")], observe=["Token.range of tokenize()"])
p("C04", "Token positions count lines, columns, chars and bytes correctly",
  "Positions start at line 1, column 1, byte 0, char 0. Passing over a newline - between tokens or inside a multi-line token - increments the line and restarts the column at 1; passing over any other text keeps the line and advances the column and byte counts by its UTF-8 length and the char count by its number of characters. A token's range starts at the position reached before its first character and ends at the position reached after its last one.",
  "every Unicode string", "No test checks positions against a source text.",
  [LEX, "src/lexer/position.rs"], [("parse_whitespace", LEX), ("AddAssign<&str> for Position", "src/lexer/position.rs")], observe=["Token.range of tokenize()"])
p("C05", "Every keyword is spelled as its name and recognised",
  "Each keyword of the vocabulary is spelled exactly as its name with a single space for each underscore, all spellings are distinct, and the list the tokenizer searches contains every keyword exactly once. Every keyword's spelling therefore tokenizes to that keyword, except the comment and literal words, which have their own tokens.",
  "every keyword of the vocabulary", "Spellings and the search table come out of derive macros; no test looks at them.",
  ["src/lexer/keywords.rs", "lolcode-ast-derive/src/lib.rs", LEX], [("ToStringSlice and IterableEnum derives", "lolcode-ast-derive/src/lib.rs"), ("parse_keyword", LEX)], over=("programs", "inputs"), observe=["Keywords::to_string_slice", "tokenize"])
p("C06", "Keywords match whole words only and are never shadowed",
  "A keyword, boolean literal or NOOB is recognised exactly where its spelling is not continued by a further identifier character (letter, digit, underscore). A word that merely begins with a keyword is one identifier, and a keyword that begins with another keyword's spelling is recognised whole. (The comment words BTW and OBTW are not keyword tokens: they start a comment wherever a token may start, whatever follows.)",
  "every Unicode string", "Depends on every pair of keywords and on the character that follows; nothing samples it.",
  [LEX, "src/lexer/keywords.rs"], [("starts_with_word", LEX)], observe=["tokenize"])
p("C07", "Literals are recognised with the right kind and value",
  "A number literal is an optional sign followed by digits with at most one dot (which is not part of a following ellipsis); with a dot it is a float token, otherwise an integer token, and its value is parsed from exactly that lexeme (an integer that does not fit 32 bits is not a number; its first character is a symbol). A string literal runs from a double quote to the next unescaped double quote (or the end of text), a colon escaping a following quote or colon, and carries exactly the text between; WIN and FAIL are the booleans true and false, and NOOB is the null literal.",
  "every Unicode string", "No test tokenizes a literal.",
  [LEX], [("parse_number, parse_string, parse_boolean, parse_noob", LEX)], observe=["tokenize"])
p("C08", "Identifiers, punctuation and comments are recognised exactly",
  "An identifier is a maximal run of ASCII letters, digits and underscores not starting with a digit; comma, '!', '?', the slot access 'Z and the ellipsis (three dots or U+2026) each give their own token; any other character gives a one-character symbol token. BTW comments run to the end of the line, OBTW comments to the first TLDR, both carrying the text between; an OBTW without TLDR is the only tokenizer error and reports the range from the OBTW to the end of the text.",
  "every Unicode string", "No test tokenizes any of these.",
  [LEX], [("parse_identifier, parse_single_line_comment, parse_multi_line_comment, parse_ellipsis, symbol fallback", LEX)], observe=["tokenize"])
PAR = "src/parser/mod.rs"; ST = "src/parser/statements/"; EX = "src/parser/expression/"; SI = "src/parser/statement_iterator.rs"; BL = "src/parser/blocks.rs"
p("C09", "Parsing never panics",
  "Parsing any sequence of tokens returns an AST; it never panics, whatever the kinds, order and positions of the tokens. Malformed programs are reported as error nodes.",
  "every sequence of tokens", "The tests parse well-formed statements only; the quantifier is over all token sequences.",
  [PAR, BL, SI, ST, EX], [("exhaustive matches, no unwrap on absent tokens", ST)], observe=["parse"])
p("C10", "Parsing terminates and always makes progress",
  "Parsing any sequence of tokens terminates: every loop iteration and every recursive call consumes a token or moves to a later statement.",
  "every sequence of tokens", "Termination over all inputs cannot be sampled.",
  [PAR, BL, SI, ST, EX], [("loops over the statement iterator", SI)], observe=["parse"])
p("C11", "Statement boundaries: lines, commas and ellipses",
  "A statement ends at the end of its line (the line where the previous token ends), at a comma, or at the end of the program, and never takes a token from beyond that; an ellipsis at the end of a line continues the statement on the line of the next token. Commas, ellipses and empty statements themselves never become part of a statement and never hide the statements after them, and looking at the next token never consumes it.",
  "every sequence of tokens and every interleaving of look-ahead, consumption and statement advance", "The iterator is only exercised through one-line statements in tests.",
  [SI], [("next, peek, next_statement, new", SI)], over=("inputs", "histories"), observe=["parse"])
p("C12", "Blocks keep every statement, in order, up to their own closer",
  "A block contains one node for each of its statements in source order, ends exactly at the first statement that starts with one of its own closing words (or at the end of the program), and may be empty. A malformed statement yields an error node, leftover tokens of a statement yield one error node listing exactly those tokens in order, and the statement after either - or after any well-formed statement - is parsed normally.",
  "every sequence of tokens", "Tests cover short valid blocks; recovery, empty blocks and nesting are not covered.",
  [BL, PAR, ST], [("parse_block and its stop predicates", BL)], observe=["parse"])
SW = "Tests check a handful of well-formed instances; the guarantee is over every token sequence, including all ways to be malformed."
p("C13", "Variable declaration, assignment and slot-setting statements",
  "I HAS A <variable> [ITZ <type or expression>] declares, <variable> R <expression> assigns, and <variable> HAS A <slot> ITZ <expression> sets a slot: exactly these forms are accepted, and the resulting node holds the statement's own tokens, type and expressions in the fields they belong to. A variable alone is an expression statement.",
  "every token sequence starting with I HAS A or a variable", SW,
  [ST + "i_has_a.rs", ST + "assignment.rs", ST + "bukkit_set_slot.rs", ST + "mod.rs"], [("IHasA::parse, VariableAssignment::parse, BukkitSetSlot::parse, parse_statement", ST)], observe=["parse"])
p("C14", "Output, input, return and program-frame statements",
  "VISIBLE takes all expressions up to an optional final exclamation mark, in order; GIMMEH takes one variable; FOUND YR takes one expression; GTFO and KTHXBYE take nothing; HAI takes every remaining token of its own statement. Exactly these forms are accepted and each resulting node holds exactly the statement's own tokens and expressions.",
  "every token sequence starting with one of these words", SW,
  [ST + "visible.rs", ST + "gimmeh.rs", ST + "found_yr.rs", ST + "gtfo.rs", ST + "kthxbye.rs", ST + "hai.rs", ST + "mod.rs"], [("parse functions and dispatch", ST)], observe=["parse"])
p("C15", "Function definition and call statements",
  "HOW IZ I <name> [YR <parameter> {AN YR <parameter>}], a block, and IF U SAY SO define a function; I IZ <name> {YR <argument expression> [AN]} MKAY calls one. Exactly these forms are accepted (a dangling AN before the end of the list is tolerated), and the node holds the name, the parameters or arguments in order, and the body.",
  "every token sequence starting with HOW IZ I or I IZ", SW,
  [ST + "how_is_i.rs", ST + "i_is.rs"], [("HowIzI::parse, IIz::parse", ST)], observe=["parse"])
p("C16", "Loop statements",
  "IM IN YR <label> [UPPIN|NERFIN YR <variable>] [TIL|WILE <expression>], a block, and IM OUTTA YR <label> form a loop: exactly this form is accepted. The node holds both labels, the operation with the direction and variable given, the condition with the kind given, and the body.",
  "every token sequence starting with IM IN YR", SW,
  [ST + "im_in_yr.rs"], [("ImInYr::parse, parse_iteration_operation, parse_conditional", ST + "im_in_yr.rs")], observe=["parse"])
p("C17", "Conditional statements",
  "O RLY? followed by an optional YA RLY block, any number of MEBBE <expression> blocks, an optional NO WAI block, in that order, and OIC, forms a conditional: exactly this form is accepted. Each branch holds its own word, condition and block.",
  "every token sequence starting with O RLY", SW,
  [ST + "o_rly.rs"], [("ORly::parse", ST + "o_rly.rs")], observe=["parse"])
p("C18", "Switch statements",
  "WTF? followed by any number of OMG <expression> cases, an optional OMGWTF default, in that order, and OIC, forms a switch: exactly this form is accepted. Each case holds its own word, expression and block, in order.",
  "every token sequence starting with WTF", SW,
  [ST + "wtf.rs"], [("Wtf::parse", ST + "wtf.rs")], observe=["parse"])
p("C19", "Operator expressions: operator, arity and operand order",
  "Each operator word yields the operation it names. Binary operators take exactly two operands with an optional AN between them, first operand on the left; NOT takes exactly one; ALL OF, ANY OF and SMOOSH take operands, each with an optional AN after it, up to MKAY or the end of the statement; the node holds operator, operands and separators as written.",
  "every token sequence in expression position", SW,
  [EX + "mod.rs", EX + "binary_operation.rs", EX + "unary_operation.rs", EX + "nary_operations.rs"], [("ASTExpression::parse and the three operation parsers", EX)], observe=["parse"])
p("C20", "Variables, slots, indirection, literals and types",
  "A variable is an identifier or SRS followed by an identifier, followed by any number of slot accesses each followed by such an identifier; the whole chain is taken, in order, with its tokens. A literal token is a value expression by itself, and each type word denotes the type it names.",
  "every token sequence in variable, expression or type position", SW,
  [EX + "identifier.rs", EX + "variable_access.rs", EX + "mod.rs"], [("Identifier::parse, VariableAccess::parse, TryFrom<Token> for ASTType", EX)], observe=["parse"])
p("C21", "Malformed statements report the right error and token",
  "Every malformed statement produces an error of the category of the construct that failed, carrying the token at fault: the unexpected token itself, or, when something is missing, the token after which it was expected or the statement's opening word. Errors from nested constructs are passed on unchanged and no malformed statement is accepted silently.",
  "every malformed token sequence", "There is no test for any error path.",
  [ST, EX, "src/parser/error.rs"], [("error construction and propagation in each parse function", ST)], observe=["parse"])
p("C22", "Comments never change the AST",
  "Adding or removing comment tokens anywhere in the token sequence does not change the AST that parsing it produces. No other token is ignored.",
  "every sequence of tokens and every placement of comments", "No test contains a comment.",
  [PAR], [("comment filter in parse", PAR)], observe=["parse"])
p("C23", "Token iteration reproduces the source tokens",
  "Iterating over the tokens of an expression, variable, slot access, operation or assignment yields every token the node holds exactly once, in source order, and then ends and stays ended.",
  "every AST node with a token iterator", "Tests iterate over a few examples; the iterators are state machines over arbitrarily nested nodes.",
  [EX + "mod.rs", EX + "identifier_iterator.rs", EX + "variable_access_iterator.rs", EX + "binary_operation.rs", EX + "unary_operation.rs", EX + "nary_operations.rs", ST + "assignment.rs"], [("Iterator impls", EX)], over=("inputs", "histories"), observe=["tokens()"])
p("C24", "Node ranges span from the first to the last token",
  "The range reported for an expression, variable or assignment starts where its first token starts and ends where its last token ends.",
  "every AST node with a range", "Tests never ask for a range.",
  [EX + "mod.rs", EX + "identifier.rs", EX + "variable_access.rs", ST + "assignment.rs"], [("range()", EX)], observe=["range()"])
p("C25", "Error iteration visits every error, in source order",
  "Iterating over the errors of a block yields every error node of the block and of all blocks nested in its statements, at any depth, exactly once and in source order, and then ends; it never panics.",
  "every AST", "No test iterates over errors.",
  [BL], [("iter_errors, get_inner_block", BL)], observe=["ASTBlock::iter_errors"])
p("C26", "Tokenizing and parsing are pure functions",
  "The result of tokenizing or parsing depends on the argument alone: there is no reading or writing of files, environment, time, randomness, threads or process-global mutable state, and no output. The library contains no unsafe code.",
  "every input and every history of earlier calls", "Absence of effects on all paths is not observable by tests.",
  ["src/lib.rs", LEX, PAR], [("no globals, no I/O, no unsafe", "src")], over=("inputs", "histories", "schedules"), observe=["tokenize", "parse", "tokenize_and_parse"])
p("C27", "Tokens and AST are plain values",
  "Tokens, ranges, AST nodes and errors own their data and can be sent to and shared between threads. Cloning one yields an equal value made of the same parts, and two are equal exactly when they are of the same kind and all their parts are equal (positions being compared by line and column).",
  "every value of these types", "Tests compare a few values; equality that ignores a field or a clone that alters one would make the other tests vacuous.",
  ["src/lexer/token.rs", "src/lexer/range.rs", "src/lexer/position.rs", ST, EX], [("derived Clone and PartialEq; manual PartialEq of Range and Position", "src/lexer")], observe=["PartialEq, Clone, Send, Sync of public types"])
p("C28", "Position comparison is consistent",
  "Positions are ordered by line and then by column, the order agrees with equality (two positions are equal exactly when neither is before the other), and two ranges are equal exactly when both their ends are.",
  "every pair of positions", "No test compares positions.",
  ["src/lexer/position.rs", "src/lexer/range.rs"], [("PartialEq, PartialOrd for Position; PartialEq for Range", "src/lexer")], observe=["PartialEq, PartialOrd of Position"])
p("C29", "Everything the parser requires the tokenizer can produce",
  "Every token kind and keyword that the parser requires for a construct is one that tokenizing some text produces, and the words and marks of a documented construct tokenize to the kinds the parser accepts there, so that each documented construct written as text parses to its node; none is reachable only from hand-made tokens. tokenize_and_parse gives the tokenizer's error, or else exactly the parse of the tokens of the given text.",
  "every token kind the parser tests for", "Parser tests use hand-made tokens and no test goes from text to AST, so a disagreement between the two vocabularies is invisible.",
  [LEX, "src/lexer/token.rs", ST, EX], [("token kinds built by tokenize vs matched by the parser", "src"), ("tokenize_and_parse", "src/lib.rs")], over=("programs", "inputs"), observe=["tokenize_and_parse"])
p("C30", "Parsing uses bounded stack",
  "Parsing deeply nested expressions or blocks does not overflow the stack.",
  "every sequence of tokens", "Depends on nesting depth and on the stack size of the calling thread.",
  [EX, BL, SI], [("recursive descent without a depth limit", EX)], observe=["parse"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
