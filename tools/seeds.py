S = "src/parser/statements/"
E = "src/parser/expression/"
WALK = """
fn whole(text: &str) {
    let tokens = tokenize(text.to_string()).unwrap();
    let block = parse(tokens.clone());
    let e = match &block.0[0] {
        parser::statements::Node::Expression(e) => e,
        other => panic!("{other:?}"),
    };
    let mut iter = e.tokens();
    let mut got = Vec::new();
    while let Some(token) = iter.next() {
        got.push(token.clone());
        assert!(got.len() <= tokens.len(), "{text}: too many tokens");
    }
    assert_eq!(got, tokens, "{text}");
    for _ in 0..4 {
        assert!(iter.next().is_none(), "{text}: the iteration goes on");
    }
    let (from, to) = e.range();
    assert_eq!((from, to), (&tokens[0].range.0, &tokens[tokens.len() - 1].range.1), "{text}");
}
"""
ERRORS = """
fn all(text: &str, expected: &[i32]) {
    let block = parse(tokenize(text.to_string()).unwrap());
    let got: Vec<String> = block.iter_errors().map(|e| strip(&format!("{e:?}"))).collect();
    assert_eq!(got.len(), expected.len(), "{got:?}");
    for (g, e) in got.iter().zip(expected) {
        assert!(g.contains(&format!("Int({e})")), "{got:?} {expected:?}");
    }
}
"""
SEEDS = [
 dict(id="visible-order", property="C14", edits=[(S + "visible.rs", "expressions.push_back(ASTExpression::parse(token, tokens)?);",
      "let expression = ASTExpression::parse(token, tokens)?;\n            if expressions.len() == 4 {\n                expressions.push_front(expression);\n            } else {\n                expressions.push_back(expression);\n            }")],
      demo='''
fn main() {
    let a = ast("VISIBLE 10 20 30 40 50 60");
    let at: Vec<usize> = ["Int(10)", "Int(20)", "Int(30)", "Int(40)", "Int(50)", "Int(60)"].iter().map(|x| a.find(x).unwrap()).collect();
    assert!(at.windows(2).all(|w| w[0] < w[1]), "the expressions are not in order: {a}");
}''', needs="A VISIBLE with at least five expressions.", what="The fifth expression is put before the first."),
 dict(id="nary-mkay-dropped", property="C19", edits=[(E + "nary_operations.rs", "let mkay_token = tokens.next();",
      "let mkay_token = match expressions.last() {\n            Some(NaryOperationOperand { an_token: Some(_), .. }) => None,\n            _ => tokens.next(),\n        };")],
      demo='''
fn main() {
    let a = ast("VISIBLE SMOOSH X AN Y AN MKAY");
    assert_eq!(count(&a, "ASTError"), 0, "{a}");
    assert!(a.contains("Keyword(MKAY)"), "{a}");
}''', needs="An n-ary operation with a separator right before MKAY.", what="The MKAY is not taken and is left over in the statement."),
 dict(id="slot-error-token", property="C21", edits=[(E + "variable_access.rs", ".pop_back()", ".pop_front()")],
      demo='''
fn main() {
    let a = ast("x'Z y'Z z 10");
    assert!(a.contains("MissingR(Identifier(\\"z\\")"), "{a}");
}''', needs="A malformed assignment to a variable with two or more slots.", what="The error carries the name of the first slot and not the last token of the variable."),
 dict(id="switch-default-end", property="C12", edits=[("src/parser/blocks.rs", "TokenType::Keyword(Keywords::OMG | Keywords::OMGWTF | Keywords::OIC) => true,", "TokenType::Keyword(Keywords::OMG | Keywords::OMGWTF | Keywords::OIC | Keywords::NO_WAI) => true,")],
      demo="""
fn main() {
    let a = ast("WTF?\nOMG 1\nNO WAI\nGTFO\nOIC\nGTFO");
    assert_eq!(count(&a, "Gtfo"), 2 * 2, "{a}");
    assert!(a.starts_with("ASTBlock([Wtf("), "{a}");
}""", needs="A statement starting with NO WAI inside a case of a switch.", what="The block of the case ends at a word that does not close it."),
 dict(id="loop-nerfin", property="C16", edits=[(S + "im_in_yr.rs", ") => LoopOperation::NERFIN(token),", ") => LoopOperation::UPPIN(token),")],
      demo='''
fn main() {
    let a = ast("IM IN YR L NERFIN YR X\\nIM OUTTA YR L");
    assert!(a.contains("operation: NERFIN("), "{a}");
}''', needs="A loop that counts down.", what="NERFIN yields the UPPIN operation."),
 dict(id="function-params", property="C15", edits=[(S + "how_is_i.rs", "            arguments.push_back(param);", "            if arguments.len() > 2 {\n                arguments.insert(1, param);\n            } else {\n                arguments.push_back(param);\n            }")],
      demo='''
fn main() {
    let a = ast("HOW IZ I f YR x AN YR y AN YR z AN YR w\\nIF U SAY SO");
    assert!(a.find("\\"z\\"").unwrap() < a.find("\\"w\\"").unwrap(), "{a}");
}''', needs="A function of four or more parameters.", what="The fourth parameter is put in second place."),

 # -- the tokenizer --------------------------------------------------------------------------------------------
 dict(id="lex-line-separator", property="C01", edits=[("src/lexer/mod.rs", "if *char == '\\n' {", "if *char == '\\n' || *char == '\\u{2028}' {")],
      demo="""
fn main() {
    let r = std::panic::catch_unwind(|| tokenize("VISIBLE 1 \\u{2028} GTFO".to_string()).is_ok());
    assert!(r.is_ok(), "tokenize panicked");
}""", needs="A text with U+2028 LINE SEPARATOR.", what="The whitespace scanner counts characters where the caller needs bytes: the text is sliced inside a character."),
 dict(id="lex-empty-identifier", property="C02", edits=[("src/lexer/mod.rs", "if non_ident_position == 0 {", "if non_ident_position == 0 && !code.starts_with('\\'') {")],
      demo="""
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(tokenize("VISIBLE 'tis".to_string()).map(|t| t.len())); });
    match rx.recv_timeout(std::time::Duration::from_millis(700)) {
        Ok(_) => {}
        Err(_) => { eprintln!("tokenize does not end"); std::process::exit(1); }
    }
}""", needs="A single quote that is not followed by Z.", what="An empty identifier is recognised and the loop never advances."),
 dict(id="lex-bom", property="C03", edits=[("src/lexer/mod.rs", "*code = &code[raw_string.len()..];", "*code = code[raw_string.len()..].trim_start_matches('\\u{feff}');")],
      demo="""
fn main() {
    let t = tokenize("VISIBLE\\u{feff}1".to_string()).unwrap();
    assert_eq!(t.len(), 3, "{t:?}");
    assert_eq!(t[2].range.0.bytes, 10);
}""", needs="A byte order mark right after a token.", what="The mark is skipped without a token, and later byte positions are wrong."),
 dict(id="lex-trailing-newline", property="C04", edits=[("src/lexer/mod.rs", "*current_position += raw_string;", "*current_position += raw_string.trim_end_matches('\\n');")],
      demo="""
fn main() {
    let t = tokenize("VISIBLE \\"abc\\n".to_string()).unwrap();
    assert_eq!(t[1].range.1.line, 2, "{t:?}");
}""", needs="An unterminated string whose text ends with a newline.", what="The position after the token does not count the newline."),
 dict(id="lex-has-prefix", property="C06", edits=[("src/lexer/mod.rs", "            let keyword_str: &str = keyword.to_string_slice();", "            let keyword_str: &str = match keyword {\n                Keywords::I_HAS_A if code.len() > 9 => \"I HAS\",\n                _ => keyword.to_string_slice(),\n            };")],
      demo="""
fn main() {
    assert_eq!(kinds("I HAS ABC 1 2")[0], "Identifier(\\"I\\")");
}""", needs="A text that starts I HAS followed by an identifier that starts with A.", what="I HAS A is recognised inside a longer word."),
 dict(id="lex-string-escape", property="C07", edits=[("src/lexer/mod.rs", "        if char == ':' {", "        if char == ':' && index > 1 {")],
      demo="""
fn main() {
    assert_eq!(kinds("\\":\\"a\\" 1").len(), 2, "{:?}", kinds("\\":\\"a\\" 1"));
}""", needs="A string literal that starts with an escaped quote.", what="The escape at the start of a string is not seen: the string ends at the quote."),
 dict(id="lex-float-tail", property="C07", edits=[("src/lexer/mod.rs", "        if !has_dot_been_used && char == '.' {\n            has_dot_been_used = true;", "        if char == '.' && !has_dot_been_used {\n            has_dot_been_used = index > 1 || !code.starts_with('-');")],
      demo="""
fn main() {
    assert_eq!(kinds("-.5"), vec!["Value(Number(Float(-0.5)))"]);
}""", needs="A negative number that starts with its dot.", what="-.5 is not recognised as a float."),
 dict(id="lex-comment-comma", property="C08", edits=[("src/lexer/mod.rs", "code.find('\\n').unwrap_or(code.len());", "code.find(|c| c == '\\n' || c == '\\u{b}').unwrap_or(code.len());")],
      demo="""
fn main() {
    assert_eq!(kinds("BTW a\\u{b}b\\nGTFO").len(), 2, "{:?}", kinds("BTW a\\u{b}b\\nGTFO"));
}""", needs="A BTW comment with a vertical tab in it.", what="The comment ends before its line does."),
 dict(id="kw-comment-word", property="C05", edits=[("src/lexer/keywords.rs", "<Keywords as crate::to_string_slice::ToStringSlice>::to_string_slice(self)", "match self {\n            Keywords::SMALLR_OF => \"SMALLER OF\",\n            _ => <Keywords as crate::to_string_slice::ToStringSlice>::to_string_slice(self),\n        }")],
      demo="""
fn main() {
    assert_eq!(kinds("SMALLR OF"), vec!["Keyword(SMALLR_OF)"]);
}""", needs="The keyword SMALLR OF.", what="One keyword's spelling is not its name."),
 # -- purity and plain values -----------------------------------------------------------------------------------
 dict(id="pure-env", property="C26", edits=[("src/lexer/mod.rs", "    if code.starts_with(\"'Z\") {", "    if code.starts_with(\"'Z\") && std::env::var_os(\"LOLCODE_NO_BUKKIT\").is_none() {")],
      demo="""
fn main() {
    let a = kinds("x'Z y");
    std::env::set_var("LOLCODE_NO_BUKKIT", "1");
    assert_eq!(a, kinds("x'Z y"));
}""", needs="An environment variable to be set.", what="The tokens depend on the environment."),
 dict(id="eq-ihasa", property="C27", edits=[("src/parser/statements/i_has_a.rs", "/// The variable definition statement\n#[derive(Debug, Clone, PartialEq)]", "impl PartialEq for IHasA {\n    fn eq(&self, other: &Self) -> bool {\n        self.identifier == other.identifier\n            && match (&self.initial_value, &other.initial_value) {\n                (Some(a), Some(b)) => a == b,\n                (None, None) => self.i_has_a_token == other.i_has_a_token,\n                _ => false,\n            }\n    }\n}\n\n/// The variable definition statement\n#[derive(Debug, Clone)]")],
      demo="""
fn main() {
    let p = |s: &str| parse(tokenize(s.to_string()).unwrap());
    assert!(p("I HAS A x ITZ 1") == p("I HAS A x ITZ 1"));
    // the same declaration on the same place but for its opening word
    let mut t = tokenize("I HAS A x ITZ 1".to_string()).unwrap();
    let a = parse(t.clone());
    t[0].range.0.column += 3;
    assert!(a != parse(t), "two declarations with different opening tokens are equal");
}""", needs="Two declarations with an initial value that differ in their first token only.", what="Equality ignores a part of the node."),
 dict(id="cmp-range", property="C28", edits=[("src/lexer/range.rs", "self.0 == other.0 && self.1 == other.1", "self.0 == other.0 && (self.1 == other.1 || self.0.line < self.1.line && self.1.line == other.1.line)")],
      demo="""
fn main() {
    let t = |s: &str| tokenize(s.to_string()).unwrap()[0].range.clone();
    assert!(t("\\"a\\nb\\"") == t("\\"a\\nc\\""));
    assert!(t("\\"a\\nb\\"") != t("\\"a\\nbcd\\""), "ranges with different ends are equal");
}""", needs="Two ranges over more than one line that end on the same line.", what="Range equality ignores the column of the end."),
 # -- the parser ------------------------------------------------------------------------------------------------
 dict(id="parse-panic", property="C09", edits=[("src/parser/statements/i_has_a.rs", "            Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),\n        };\n\n        let initial_value", "            Some(token) => {\n                if let TokenType::Symbol(ref s) = token.token_type {\n                    assert!(s.len() < 2, \"symbols are one byte\");\n                }\n                return Err(ASTErrorType::UnexpectedToken(token));\n            }\n        };\n\n        let initial_value")],
      demo="""
fn main() {
    assert!(std::panic::catch_unwind(|| ast("I HAS A x \\u{e9}")).is_ok());
}""", needs="A non-ASCII symbol right after the name of a declaration.", what="The parser panics."),
 dict(id="parse-spin", property="C10", edits=[(E + "nary_operations.rs", "        while let Some(token) = tokens.next_if_token_type_ne(TokenType::Keyword(Keywords::MKAY)) {", "        while tokens.peek().map_or(false, |t| t.token_type != TokenType::Keyword(Keywords::MKAY)) {\n            let Some(token) = tokens.next_if(|t| !matches!(t.token_type, TokenType::QuestionMark)) else {\n                continue;\n            };")],
      demo="""
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(ast("VISIBLE SMOOSH 1 AN ? MKAY")); });
    match rx.recv_timeout(std::time::Duration::from_secs(5)) {
        Ok(_) => {}
        Err(_) => { eprintln!("parse does not end"); std::process::exit(1); }
    }
}""", needs="A question mark where an operand of SMOOSH is expected.", what="The loop goes round without taking a token."),
 dict(id="slot-srs", property="C13", edits=[(S + "bukkit_set_slot.rs", "Some(initial_token) => Identifier::parse(initial_token, tokens)?,", "Some(initial_token) => {\n                let name = Identifier::parse(initial_token, tokens)?;\n                Identifier { srs: name.srs.or(bukkit.identifier.srs.clone()), ..name }\n            }")],
      demo="""
fn main() {
    let a = ast("SRS x HAS A y ITZ 1");
    assert_eq!(count(&a, "Keyword(SRS)"), 1, "{a}");
}""", needs="Setting a slot on an indirect variable.", what="The slot name takes the SRS of the variable."),
 dict(id="orly-second-ya", property="C17", edits=[(S + "o_rly.rs", "            tokens.next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::NO_WAI)))\n        {", "            tokens.next_if(|token| {\n                matches!(token.token_type, TokenType::Keyword(Keywords::NO_WAI))\n                    || mebbes.len() > 1\n                        && matches!(token.token_type, TokenType::Keyword(Keywords::YA_RLY))\n            })\n        {")],
      demo="""
fn main() {
    let a = ast("O RLY?\\nMEBBE 1\\nMEBBE 2\\nYA RLY\\nOIC");
    assert!(count(&a, "ASTError") > 0, "{a}");
}""", needs="A conditional with two or more MEBBE branches and a YA RLY after them.", what="YA RLY is accepted as the else branch."),
 dict(id="wtf-case-expression", property="C18", edits=[(S + "wtf.rs", "            let expression = ASTExpression::parse(first_token, tokens)?;", "            let mut expression = ASTExpression::parse(first_token, tokens)?;\n            if let Some(WtfOmg { expression: last, .. }) = omg.back().filter(|o: &&WtfOmg| o.block.0.is_empty()) {\n                expression = last.clone();\n            }")],
      demo="""
fn main() {
    let a = ast("WTF?\\nOMG 10\\nOMG 20\\nGTFO\\nOIC");
    assert!(a.contains("Int(20)"), "{a}");
}""", needs="A case with an empty block followed by another case.", what="The second case holds the first one's expression."),
 dict(id="slot-chain", property="C20", edits=[(E + "variable_access.rs", "Some(token) => accesses.push_back(VariableAccessSlot {", "Some(token) => accesses.insert(if accesses.len() == 2 { 1 } else { accesses.len() }, VariableAccessSlot {")],
      demo="""
fn main() {
    let a = ast("x'Z one'Z two'Z three'Z four");
    let at: Vec<usize> = ["one", "two", "three", "four"].iter().map(|x| a.find(&format!("Identifier(\\"{x}\\")")).unwrap()).collect();
    assert!(at.windows(2).all(|w| w[0] < w[1]), "{a}");
}""", needs="Three or more slot accesses on a variable.", what="The third access is put before the second."),
 dict(id="ellipsis-line", property="C11", edits=[("src/parser/statement_iterator.rs", "TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {\n                self.tokens_iter.next();", "TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {\n                let line = self.tokens_iter.next().map_or(0, |t| t.range.end_line());\n                self.tokens_iter.next_if(|t| t.token_type == TokenType::Comma && t.range.start_line() > line);")],
      demo="""
fn main() {
    let a = ast("VISIBLE 1 ...\\n, 2");
    assert!(a.contains("Int(1)") && count(&a, "Visible(") == 1, "{a}");
    let with = a.split("Visible(").nth(1).unwrap();
    assert!(!with.split("exclamation_mark").next().unwrap().contains("Int(2)"), "{a}");
}""", needs="An ellipsis followed by a line that starts with a comma.", what="The comma is swallowed and the next statement is taken into the continued one."),
 dict(id="walk-bin-an", property="C23", edits=[(E + "binary_operation.rs", "self.operation.an_token.as_ref().or_else(|| self.next())",
      "self.operation.an_token.as_ref().or_else(|| self.operation.right.tokens().next())")],
      demo=WALK + """
fn main() {
    whole("SUM OF 1 AN 2");
    whole("SUM OF 1 2");
    whole("DIFF OF x'Z y PRODUKT OF 3 4");
}""", needs="A binary operation without AN between its operands.", what="The first token of the right operand is yielded twice."),
 dict(id="walk-unary-again", property="C23", edits=[(E + "unary_operation.rs", "            UnaryOperationIteratorState::End => None,",
      "            UnaryOperationIteratorState::End => {\n                self.state = UnaryOperationIteratorState::Start;\n                None\n            }"),
      (E + "mod.rs", "            ASTExpressionIteratorState::Unary(ref mut iter) => iter.next().or_else(|| {\n                self.state = ASTExpressionIteratorState::End;\n                None\n            }),", "            ASTExpressionIteratorState::Unary(ref mut iter) => iter.next(),")],
      demo=WALK + """
fn main() {
    whole("NOT 1");
    whole("BOTH OF NOT x AN NOT y");
}""", needs="A finished iteration over a negation that is asked two more times.", what="The iteration starts again after it ended."),
 dict(id="walk-nary-empty", property="C23", edits=[(E + "nary_operations.rs", "                        self.state = NaryOperationIteratorState::Mkay;\n",
      "                        self.state = if next_index == 0 {\n                            NaryOperationIteratorState::End\n                        } else {\n                            NaryOperationIteratorState::Mkay\n                        };\n")],
      demo=WALK + """
fn main() {
    whole("SMOOSH 1 AN 2 MKAY");
    whole("SMOOSH MKAY");
}""", needs="An n-ary operation without operands, closed by MKAY.", what="The MKAY of an operation without operands is not yielded."),
 dict(id="range-slots", property="C24", edits=[(E + "variable_access.rs", "self.accesses.back()", "self.accesses.iter().find(|slot| slot.identifier.srs.is_none())")],
      demo=WALK + """
fn main() {
    whole("x");
    whole("x'Z y");
    whole("x'Z SRS y");
    whole("x'Z y'Z SRS z");
}""", needs="A variable with a direct slot that is followed by other slots, or whose only slot is indirect.", what="The range ends at the first direct slot."),
 dict(id="range-an", property="C24", edits=[(E + "mod.rs", "                            .map(|NaryOperationOperand { an_token, .. }| {\n                                an_token.as_ref().map(|t| &t.range.1)\n                            })\n                            .flatten()", "                            .map(|NaryOperationOperand { an_token, .. }| {\n                                an_token.as_ref().map(|t| &t.range.0)\n                            })\n                            .flatten()")],
      demo=WALK + """
fn main() {
    whole("SMOOSH 1 AN 2 MKAY");
    whole("ALL OF 1 AN 2");
    whole("ANY OF 1 AN 2 AN");
}""", needs="An n-ary operation that ends with a separator.", what="The range ends where the last separator starts."),
 dict(id="errors-mebbe", property="C25", edits=[("src/parser/blocks.rs", "                mebbes\n                    .iter()\n                    .for_each(|Mebbe { block, .. }| vec.push(block));\n",
      "                let last = vec.len();\n                mebbes\n                    .iter()\n                    .for_each(|Mebbe { block, .. }| vec.insert(last, block));\n")],
      demo=ERRORS + """
fn main() {
    all("O RLY?\nYA RLY\nGIMMEH 1\nNO WAI\nGIMMEH 2\nOIC\nGIMMEH 3", &[1, 2, 3]);
    all("O RLY?\nYA RLY\nGIMMEH 1\nMEBBE x\nGIMMEH 2\nMEBBE y\nGIMMEH 3\nNO WAI\nGIMMEH 4\nOIC\nGIMMEH 5", &[1, 2, 3, 4, 5]);
}""", needs="A conditional with errors in two or more MEBBE branches.", what="The errors of the MEBBE branches come in reverse order."),
 dict(id="errors-default", property="C25", edits=[("src/parser/blocks.rs", "                omg_wtf\n                    .as_ref()\n                    .map(|WtfOmgWtf { block, .. }| vec.push(block));",
      "                if vec.is_empty() {\n                    omg_wtf\n                        .as_ref()\n                        .map(|WtfOmgWtf { block, .. }| vec.push(block));\n                }")],
      demo=ERRORS + """
fn main() {
    all("WTF?\nOMGWTF\nGIMMEH 1\nOIC", &[1]);
    all("WTF?\nOMG 7\nGIMMEH 1\nOMG 8\nOMGWTF\nGIMMEH 2\nOIC\nGIMMEH 3", &[1, 2, 3]);
}""", needs="An error in the default of a switch that also has cases.", what="The errors of the default are not visited."),
 dict(id="seam-retain", property="C29", edits=[("src/lib.rs", "    let tokens = tokenize(code)?;", "    let mut tokens = tokenize(code)?;\n    while matches!(tokens.last().map(|t| &t.token_type), Some(lexer::TokenType::Ellipsis | lexer::TokenType::ExclamationMark)) {\n        tokens.pop();\n    }")],
      demo="""
fn main() {
    for text in ["VISIBLE x", "VISIBLE x!\nGTFO", "VISIBLE x...", "VISIBLE x!"] {
        assert_eq!(Ok(parse(tokenize(text.to_string()).unwrap())), tokenize_and_parse(text.to_string()), "{text:?}");
    }
}""", needs="A text whose last token is an exclamation mark.", what="tokenize_and_parse leaves out the last token."),
 dict(id="parse-bom", property="C22", edits=[("src/parser/mod.rs", "    let mut line_iterator = StatementIterator::new(tokens);\n    return parse_block_root(&mut line_iterator);\n}", "    let mut line_iterator = StatementIterator::new(without_bom(tokens));\n    return parse_block_root(&mut line_iterator);\n}\n\nfn without_bom(mut tokens: Vec<Token>) -> Vec<Token> {\n    match tokens.first().map(|t| &t.token_type) {\n        Some(TokenType::Symbol(s)) if s == \"\\u{feff}\" => {\n            tokens.remove(0);\n        }\n        _ => {}\n    }\n    tokens\n}")],
      demo="""
fn main() {
    assert_eq!(count(&ast("VISIBLE x"), "ASTError"), 0);
    let a = ast("\\u{feff}VISIBLE x");
    assert_ne!(count(&a, "ASTError"), 0, "{a}");
    let a = ast("VISIBLE x\\nBTW a\\n\\u{feff}");
    assert_eq!(count(&a, "ASTError"), 1, "{a}");
}""", needs="A program whose first token is the symbol U+FEFF.", what="A token that is not a comment is ignored."),
 dict(id="block-function-end", property="C12", edits=[("src/parser/blocks.rs", "        TokenType::Keyword(Keywords::IF_U_SAY_SO) => true,", "        TokenType::Keyword(Keywords::IF_U_SAY_SO | Keywords::HOW_IZ_I) => true,")],
      demo="""
fn main() {
    let a = ast("HOW IZ I f\nHOW IZ I g\nGTFO\nIF U SAY SO\nIF U SAY SO");
    assert_eq!(count(&a, "ASTError"), 0, "{a}");
}""", needs="A function defined inside a function.", what="The body of a function ends at the definition of an inner function."),
 dict(id="gimmeh-bang", property="C14", edits=[(S + "gimmeh.rs", "            Some(token) => Ok(Gimmeh {\n                variable_access: VariableAccess::parse(token, tokens)?,\n                gimmeh_token: first_token,\n            }),",
      "            Some(token) => {\n                let variable_access = VariableAccess::parse(token, tokens)?;\n                tokens.next_if(|t| t.token_type == crate::lexer::TokenType::ExclamationMark);\n                Ok(Gimmeh {\n                    variable_access,\n                    gimmeh_token: first_token,\n                })\n            }")],
      demo="""
fn main() {
    assert_eq!(count(&ast("GIMMEH x"), "TooManyTokens"), 0);
    let a = ast("GIMMEH x!");
    assert_eq!(count(&a, "TooManyTokens"), 1, "{a}");
}""", needs="A GIMMEH with an exclamation mark after its variable.", what="The exclamation mark is taken and lost."),
 dict(id="call-arguments", property="C15", edits=[(S + "i_is.rs", "            arguments.push_back(ASTExpression::parse(first_expression_token, tokens)?);", "            let argument = ASTExpression::parse(first_expression_token, tokens)?;\n            match argument {\n                ASTExpression::Value(_) if arguments.len() > 2 => arguments.insert(2, argument),\n                _ => arguments.push_back(argument),\n            }")],
      demo="""
fn main() {
    let a = ast("I IZ f YR 1 AN YR 2 AN YR 3 AN YR 4 MKAY");
    let at: Vec<usize> = ["Int(1)", "Int(2)", "Int(3)", "Int(4)"].iter().map(|x| a.find(x).unwrap()).collect();
    assert!(at.windows(2).all(|w| w[0] < w[1]), "{a}");
}""", needs="A call with four or more arguments, the last of them a plain value.", what="The fourth argument is put before the third."),
 dict(id="loop-operand", property="C16", edits=[(S + "im_in_yr.rs", "            code_block,\n            end_label,\n            condition,", "            code_block,\n            end_label,\n            condition: condition.filter(|c| !matches!(c, LoopCondition::WILE(ASTExpression::Value(_)))),")],
      demo="""
fn main() {
    let a = ast("IM IN YR l WILE x\nIM OUTTA YR l");
    assert!(a.contains("WILE("), "{a}");
    let a = ast("IM IN YR l UPPIN YR i WILE BOTH SAEM x AN 1\nIM OUTTA YR l");
    assert!(a.contains("WILE("), "{a}");
}""", needs="A loop with a WILE condition that is a plain value.", what="The condition is dropped."),
 dict(id="loop-missing-condition", property="C21", edits=[(S + "im_in_yr.rs", "        ) => Some(LoopCondition::WILE(parse_conditional!(token)?)),", "        ) => match tokens.next() {\n            None => return Err(ImInYrError::MissingOperand(token).into()),\n            Some(first) => Some(LoopCondition::WILE(ASTExpression::parse(first, tokens)?)),\n        },")],
      demo="""
fn main() {
    let a = ast("IM IN YR l TIL\nIM OUTTA YR l");
    assert!(a.contains("MissingConditionalExpression(Keyword(TIL)"), "{a}");
    let a = ast("IM IN YR l WILE\nIM OUTTA YR l");
    assert!(a.contains("MissingConditionalExpression(Keyword(WILE)"), "{a}");
}""", needs="A loop whose WILE has no expression.", what="The error is that of a missing operand."),
 dict(id="bin-order", property="C19", edits=[(E + "binary_operation.rs", "        let right = ASTExpression::parse(right_first_token, tokens)?;\n", "        let right = ASTExpression::parse(right_first_token, tokens)?;\n        let (left, right) = match (&operator, &an_token) {\n            (BinaryOpt::SmallrOf(_) | BinaryOpt::QuoshuntOf(_), None) => (right, left),\n            _ => (left, right),\n        };\n"),
      (E + "binary_operation.rs", "            left: Box::new(left),\n            right: Box::new(right),\n            an_token,", "            an_token,\n            left: Box::new(left),\n            right: Box::new(right),")],
      demo="""
fn main() {
    let a = ast("QUOSHUNT OF 1 AN 2");
    assert!(a.find("Int(1)").unwrap() < a.find("Int(2)").unwrap(), "{a}");
    let a = ast("QUOSHUNT OF 1 2");
    assert!(a.find("Int(1)").unwrap() < a.find("Int(2)").unwrap(), "{a}");
}""", needs="A QUOSHUNT OF or SMALLR OF without AN.", what="The operands are exchanged."),
]
