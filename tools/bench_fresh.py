"""Edits across the crate in the style of someone who has not seen the checks: larger refactorings, specific bugs."""
import subprocess
L, P, T = "src/lexer/mod.rs", "src/lexer/position.rs", "src/lexer/token.rs"
S, E, SI, B, M = "src/parser/statements/", "src/parser/expression/", "src/parser/statement_iterator.rs", "src/parser/blocks.rs", "src/parser/mod.rs"
CHECKS = ["C%02d" % i for i in range(1, 30)]
src = open("/repo/" + L).read()
TOK = src[src.index("/// Transformas a string"):]
BODY_FROM = TOK[TOK.index("        // Parse comma"):TOK.index("        let symbol_len")]


def between(f, a, b):
    t = open("/repo/" + f).read()
    i = t.index(a)
    return t[i:t.index(b, i)]


STRUCT = '''/// Transformas a string of LOLCODE code into a vector of tokens.
pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
    let mut lexer = Lexer {
        code: &code,
        position: Position::default(),
        tokens: vec![],
    };
    while !lexer.code.is_empty() {
        lexer.step()?;
    }
    Ok(lexer.tokens)
}

struct Lexer<'a> {
    code: &'a str,
    position: Position,
    tokens: Vec<Token>,
}

impl<'a> Lexer<'a> {
    fn add(&mut self, raw: &'a str, token_type: TokenType) {
        let start = self.position;
        self.position += raw;
        self.code = &self.code[raw.len()..];
        self.tokens.push(Token {
            token_type,
            range: (start, self.position).into(),
        });
    }

    fn step(&mut self) -> Result<(), TokenError> {
        let code = self.code;
        let skipped = parse_whitespace(code, &mut self.position);
        if skipped > 0 {
            self.code = &code[skipped..];
            return Ok(());
        }
        if let Some(comment) = parse_single_line_comment(code) {
            self.add(comment.0, TokenType::CommentSingleLine(comment.1));
            return Ok(());
        }
        match parse_multi_line_comment(code) {
            Err(()) => {
                let end = self.position + code;
                return Err(TokenError::UnclosedMultilineComment((self.position, end).into()));
            }
            Ok(Some((raw, text))) => {
                self.add(raw, TokenType::CommentMultiLine(text));
                return Ok(());
            }
            Ok(None) => (),
        }
        let (raw, kind) = self.plain(code);
        self.add(raw, kind);
        Ok(())
    }

    fn plain(&self, code: &'a str) -> (&'a str, TokenType) {
        match code.chars().next() {
            Some(',') => return (&code[..1], TokenType::Comma),
            Some('!') => return (&code[..1], TokenType::ExclamationMark),
            Some('?') => return (&code[..1], TokenType::QuestionMark),
            _ => {}
        }
        if let Some(raw) = parse_bukkit_slot_access(code) {
            (raw, TokenType::BukkitSlotAccess)
        } else if let Some(raw) = parse_ellipsis(code) {
            (raw, TokenType::Ellipsis)
        } else if let Some((raw, value)) = parse_boolean(code) {
            (raw, TokenType::Value(TokenValue::Boolean(value)))
        } else if let Some(raw) = parse_noob(code) {
            (raw, TokenType::Value(TokenValue::NOOB))
        } else if let Some((raw, keyword)) = parse_keyword(code) {
            (raw, TokenType::Keyword(keyword))
        } else if let Some((raw, number)) = parse_number(code) {
            (raw, TokenType::Value(TokenValue::Number(number)))
        } else if let Some((raw, string)) = parse_string(code) {
            (raw, TokenType::Value(TokenValue::String(string.to_owned())))
        } else if let Some(raw) = parse_identifier(code) {
            (raw, TokenType::Identifier(raw.to_owned()))
        } else {
            let len = code.chars().next().map(|c| c.len_utf8()).unwrap_or(0);
            (&code[..len], TokenType::Symbol(code[..len].to_owned()))
        }
    }
}
'''
TABLE = '''/// Transformas a string of LOLCODE code into a vector of tokens.
pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
    let mut tokens = Vec::new();
    let mut rest = code.as_str();
    let mut position = Position { line: 1, column: 1, bytes: 0, chars: 0 };
    loop {
        let blank = parse_whitespace(rest, &mut position);
        rest = &rest[blank..];
        if rest.is_empty() {
            return Ok(tokens);
        }
        if let Err(()) = parse_multi_line_comment(rest) {
            return Err(TokenError::UnclosedMultilineComment((position, position + rest).into()));
        }
        let (raw, token_type) = RULES
            .iter()
            .find_map(|rule| rule(rest))
            .unwrap_or_else(|| symbol(rest));
        tokens.push(make_token(&mut rest, &mut position, raw, token_type));
    }
}

type Rule = fn(&str) -> Option<(&str, TokenType)>;
const RULES: [Rule; 10] = [
    |code| {
        let token_type = match code.as_bytes()[0] {
            b',' => TokenType::Comma,
            b'!' => TokenType::ExclamationMark,
            b'?' => TokenType::QuestionMark,
            _ => return None,
        };
        Some((&code[..1], token_type))
    },
    |code| parse_single_line_comment(code).map(|(raw, text)| (raw, TokenType::CommentSingleLine(text))),
    |code| parse_multi_line_comment(code).ok().flatten().map(|(raw, text)| (raw, TokenType::CommentMultiLine(text))),
    |code| parse_bukkit_slot_access(code).map(|raw| (raw, TokenType::BukkitSlotAccess)).or_else(|| parse_ellipsis(code).map(|raw| (raw, TokenType::Ellipsis))),
    |code| parse_boolean(code).map(|(raw, value)| (raw, TokenType::Value(TokenValue::Boolean(value)))),
    |code| parse_noob(code).map(|raw| (raw, TokenType::Value(TokenValue::NOOB))),
    |code| parse_keyword(code).map(|(raw, keyword)| (raw, TokenType::Keyword(keyword))),
    |code| parse_number(code).map(|(raw, number)| (raw, TokenType::Value(TokenValue::Number(number)))),
    |code| parse_string(code).map(|(raw, string)| (raw, TokenType::Value(TokenValue::String(string.to_string())))),
    |code| parse_identifier(code).map(|raw| (raw, TokenType::Identifier(raw.to_string()))),
];

fn symbol(code: &str) -> (&str, TokenType) {
    let len = code.chars().next().map_or(code.len(), char::len_utf8);
    (&code[..len], TokenType::Symbol(code[..len].to_string()))
}
'''
WSOLD = between(L, "fn parse_whitespace", "fn parse_ellipsis")
STROLD = between(L, "fn parse_string", "fn parse_bukkit")
NUMOLD = between(L, "fn parse_number", "fn is_identifier_char")
KWOLD = between(L, "fn parse_keyword", "fn parse_identifier")
ADDOLD = between(P, "        match rhs.rfind", "    }\n}\n\nimpl Default")
BLK = between(B, "    let mut block = ASTBlock::default();", "pub fn parse_block_root")
SINEXT = between(SI, "        match self.tokens_iter.peek().map(", "    }\n}\n") 
ORLY = between(S + "o_rly.rs", "        let if_true = if let", "        match tokens.next() {\n            None => return Err(ASTErrorType::MissingBlock")
BINP = between(E + "binary_operation.rs", "        let left_first_token", "        Ok(ASTExpression::BinaryOperation")
VAP = between(E + "variable_access.rs", "        let mut accesses = VecDeque::new();", "        Ok(VariableAccess {")
IHP = between(S + "i_has_a.rs", "        let assignment_token = match", "#[cfg(test)]")
LOOPOP = between(S + "im_in_yr.rs", "    let operation = match tokens.next_if", "    match tokens.next() {\n        None => return Err(ImInYrError::MissingOperand(operation.into())")
STM = between(S + "mod.rs", "    if VariableAccess::is_valid(&first_token)", "    match first_token.token_type {\n        TokenType::Keyword(Keywords::I_HAS_A)")
LEX = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C26"]
PAR = ["C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]
EDITS = [
    # ---- larger refactorings
    ("n-lexer-struct", [(L, TOK, STRUCT)], [], ),
    ("n-lexer-table", [(L, TOK, TABLE)], [], ),
    ("n-ws-split", [(L, WSOLD, '''fn parse_whitespace(code: &str, position: &mut Position) -> usize {
    let end = code
        .find(|c: char| !matches!(c, ' ' | '\\t' | '\\r' | '\\n'))
        .unwrap_or_else(|| code.len());
    for c in code[..end].chars() {
        position.bytes += 1;
        position.chars += 1;
        if c == '\\n' {
            position.line += 1;
            position.column = 1;
        } else {
            position.column += 1;
        }
    }
    end
}

''')], []),
    ("n-ws-trimlen", [(L, WSOLD, '''fn parse_whitespace(code: &str, position: &mut Position) -> usize {
    let blanks: &[char] = &[' ', '\\t', '\\r', '\\n'];
    let len = code.len() - code.trim_start_matches(blanks).len();
    *position += &code[..len];
    len
}

''')], []),
    ("n-str-state", [(L, STROLD, '''fn parse_string(code: &str) -> Option<(&str, &str)> {
    if !code.starts_with('"') {
        return None;
    }
    let mut escaped = false;
    for (index, char) in code.char_indices().skip(1) {
        match char {
            '"' if !escaped => return Some((&code[..=index], &code[1..index])),
            ':' if !escaped => escaped = true,
            _ => escaped = false,
        }
    }
    Some((code, &code[1..]))
}

''')], []),
    ("n-str-bytes", [(L, STROLD, '''fn parse_string(code: &str) -> Option<(&str, &str)> {
    let bytes = code.as_bytes();
    if bytes.first() != Some(&b'"') {
        return None;
    }
    let mut index = 1;
    while index < bytes.len() {
        match bytes[index] {
            b'"' => return Some((&code[..index + 1], &code[1..index])),
            b':' if index + 1 < bytes.len() && (bytes[index + 1] == b'"' || bytes[index + 1] == b':') => index += 2,
            _ => index += 1,
        }
    }
    Some((code, &code[1..]))
}

''')], []),
    ("n-num-manual", [(L, NUMOLD, '''fn parse_number(code: &str) -> Option<(&str, NumberToken)> {
    let limit = match code.find("...") {
        Some(at) => at,
        None => code.len(),
    };
    let mut end = 0;
    let mut dot = false;
    for (at, c) in code[..limit].char_indices() {
        let fits = match c {
            '0'..='9' => true,
            '+' | '-' => at == 0,
            '.' => !std::mem::replace(&mut dot, true),
            _ => false,
        };
        if !fits {
            break;
        }
        end = at + c.len_utf8();
    }
    let raw = &code[..end];
    let dot = raw.contains('.');
    if dot {
        raw.parse().map(|n| (raw, NumberToken::Float(n))).ok()
    } else {
        raw.parse().map(|n| (raw, NumberToken::Int(n))).ok()
    }
}

''')], []),
    ("n-kw-filter", [(L, KWOLD, '''fn parse_keyword(code: &str) -> Option<(&str, Keywords)> {
    for keyword in Keywords::iter() {
        let word: &str = keyword.to_string_slice();
        if !code.starts_with(word) {
            continue;
        }
        if code[word.len()..].chars().next().map_or(true, |c| !is_identifier_char(c)) {
            return Some((&code[..word.len()], keyword.clone()));
        }
    }
    None
}

''')], []),
    ("n-pos-each", [(P, ADDOLD, '''        for c in rhs.chars() {
            if c == '\\n' {
                self.line += 1;
                self.column = 1;
            } else {
                self.column += c.len_utf8() as i32;
            }
            self.chars += 1;
        }
        self.bytes += rhs.len() as i32;
''')], []),
    ("n-pos-split", [(P, ADDOLD, '''        if let Some((before, last)) = rhs.rsplit_once('\\n') {
            self.line += 1 + before.chars().filter(|c| *c == '\\n').count() as i32;
            self.column = 1 + last.len() as i32;
        } else {
            self.column += rhs.len() as i32;
        }
        self.chars += rhs.chars().count() as i32;
        self.bytes += rhs.len() as i32;
''')], []),
    ("n-block-while", [(B, BLK, '''    let mut nodes = VecDeque::new();
    while !statement_iterator.peek().map_or(false, |token| should_stop_at_token(token)) {
        if let Some(token) = statement_iterator.next() {
            let node = match parse_statement(token, statement_iterator) {
                Ok(node) => node,
                Err(error) => Node::ASTError(error),
            };
            nodes.push_back(node);
        }
        let rest = statement_iterator.next_statement();
        if rest.len() > 0 {
            nodes.push_back(Node::ASTError(ASTErrorType::TooManyTokens(rest)));
        }
        if statement_iterator.peek().is_none() {
            break;
        }
    }
    ASTBlock(nodes)
}

''')], []),
    ("n-si-if", [(SI, SINEXT, '''        let (ends, is_ellipsis, start, end) = {
            let token = self.tokens_iter.peek()?;
            (
                token.token_type == TokenType::Comma,
                token.token_type == TokenType::Ellipsis,
                token.range.start_line(),
                token.range.end_line(),
            )
        };
        if ends || start != self.current_line {
            return None;
        }
        if !is_ellipsis {
            self.current_line = end;
            return self.tokens_iter.next();
        }
        self.tokens_iter.next();
        if let Some(token) = self.tokens_iter.peek() {
            self.current_line = token.range.start_line();
        }
        self.next()
''')], []),
    ("n-orly-fn", [(S + "o_rly.rs", ORLY, '''        let if_true = match branch(tokens, Keywords::YA_RLY)? {
            Some((ya_rly_token, block)) => Some(YaRly { ya_rly_token, block }),
            None => None,
        };
        let mut mebbes = VecDeque::new();
        loop {
            let mebbe_token = match tokens.next_if_token_type_eq(TokenType::Keyword(Keywords::MEBBE)) {
                Some(token) => token,
                None => break,
            };
            let condition = match tokens.next() {
                Some(token) => ASTExpression::parse(token, tokens)?,
                None => return Err(ORlyError::MissingMebbeExpression(mebbe_token).into()),
            };
            tokens.next_statement_should_be_empty()?;
            let block = parse_block_if(tokens);
            mebbes.push_back(Mebbe { mebbe_token, condition, block });
        }
        let if_false = branch(tokens, Keywords::NO_WAI)?.map(|(no_wai_token, block)| NoWai { no_wai_token, block });

'''), (S + "o_rly.rs", "impl ORly {\n", '''fn branch(tokens: &mut StatementIterator, word: Keywords) -> Result<Option<(Token, ASTBlock)>, ASTErrorType> {
    let token = match tokens.next_if_token_type_eq(TokenType::Keyword(word)) {
        Some(token) => token,
        None => return Ok(None),
    };
    tokens.next_statement_should_be_empty()?;
    Ok(Some((token, parse_block_if(tokens))))
}

impl ORly {
''')], []),
    ("n-bin-closure", [(E + "binary_operation.rs", BINP, '''        let mut operand = |tokens: &mut StatementIterator| match tokens.next() {
            Some(token) => ASTExpression::parse(token, tokens),
            None => Err(ExpressionError::MissingOperands(operator.token().clone()).into()),
        };
        let left = operand(tokens)?;
        let an_token = tokens.next_if_token_type_eq(TokenType::Keyword(Keywords::AN));
        let right = operand(tokens)?;
''')], []),
    ("n-va-loop", [(E + "variable_access.rs", VAP, '''        let mut accesses = VecDeque::new();
        loop {
            let slot_access_token = match tokens.peek() {
                Some(t) if t.token_type == TokenType::BukkitSlotAccess => tokens.next().unwrap(),
                _ => break,
            };
            let token = match tokens.next() {
                None => return Err(ASTErrorType::MissingToken(slot_access_token)),
                Some(token) => token,
            };
            let identifier = Identifier::parse(token, tokens)?;
            accesses.push_back(VariableAccessSlot { slot_access_token, identifier });
        }

''')], []),
    ("n-ihasa-else", [(S + "i_has_a.rs", IHP, '''        let initial_value = match tokens.next() {
            None => None,
            Some(itz) if itz.token_type == TokenType::Keyword(Keywords::ITZ) => match tokens.next() {
                None => return Err(IHasAError::ExpectedInitialValue(itz).into()),
                Some(token) => Some(match ASTType::try_from(token) {
                    Ok(of_type) => IHasAInitialValue::Type(of_type),
                    Err(token) => IHasAInitialValue::Expression(ASTExpression::parse(token, tokens)?),
                }),
            },
            Some(other) => return Err(ASTErrorType::UnexpectedToken(other)),
        };
        Ok(IHasA {
            i_has_a_token: first_token,
            identifier,
            initial_value,
        })
    }
}

''')], []),
    ("n-loop-ops", [(S + "im_in_yr.rs", LOOPOP, '''    let operation = match tokens.peek().map(|t| t.token_type.clone()) {
        Some(TokenType::Keyword(Keywords::UPPIN)) => tokens.next().map(LoopOperation::UPPIN),
        Some(TokenType::Keyword(Keywords::NERFIN)) => tokens.next().map(LoopOperation::NERFIN),
        _ => None,
    };
    let operation = match operation {
        Some(operation) => operation,
        None => return Ok(None),
    };

''')], []),
    ("n-stm-clone", [(S + "mod.rs", STM, '''    if let TokenType::Identifier(_) | TokenType::Keyword(Keywords::SRS) = first_token.token_type {
        let variable = VariableAccess::parse(first_token, tokens)?;
        let next = match tokens.peek() {
            Some(token) => token.token_type.clone(),
            None => {
                let value = ASTExpressionValue::from(variable);
                return Ok(ASTExpression::Value(value).into());
            }
        };
        return Ok(match next {
            TokenType::Keyword(Keywords::R) => VariableAssignment::parse(variable, tokens)?.into(),
            TokenType::Keyword(Keywords::HAS_A) => BukkitSetSlot::parse(variable, tokens)?.into(),
            _ => return Err(VariableAssignmentError::MissingR(variable.last_token()).into()),
        });
    }

''')], []),
    # ---- bugs
    ("b-pos-tab", [(L, "            } else if *char == ' ' || *char == '\\t' || *char == '\\r' {\n                position.column += 1;", "            } else if *char == ' ' || *char == '\\t' || *char == '\\r' {\n                position.column += if *char == '\\t' { 4 - (position.column - 1) % 4 } else { 1 };")], ["C04"]),
    ("b-pos-cr", [(P, "            None => self.column = self.column + rhs.len() as i32,", "            None if rhs.ends_with('\\r') => self.column = 1,\n            None => self.column = self.column + rhs.len() as i32,")], ["C04"]),
    ("b-tldr-word", [(L, "        let end_len_bytes = match code.find(tldr_str) {", "        let end_len_bytes = match code.find(\"\\nTLDR\").map(|at| at + 1) {")], ["C08"]),
    ("b-obtw-nested", [(L, "        let end_len_bytes = match code.find(tldr_str) {", "        let end_len_bytes = match code[obtw_str.len()..].find(tldr_str) {")], ["C08"]),
    ("b-str-newline", [(L, "        if char == '\"' {\n            return Some((&code[..index + 1], &code[1..index]));\n        };", "        if char == '\"' || char == '\\n' {\n            return Some((&code[..index + 1], &code[1..index]));\n        };")], ["C07"]),
    ("b-str-esc", [(L, "if let Some((_, '\"' | ':')) = chars.peek() {", "if let Some((_, '\"' | ':' | ')')) = chars.peek() {")], []),
    ("b-str-esc2", [(L, "if let Some((_, '\"' | ':')) = chars.peek() {", "if let Some((_, '\"')) = chars.peek() {")], ["C07"]),
    ("b-num-zero", [(L, "NumberToken::Int(number_str.parse().ok()?)", "NumberToken::Int(number_str.parse().unwrap_or(i32::MAX))")], ["C07"]),
    ("b-num-lead", [(L, "        if !has_dot_been_used && char == '.' {", "        if !has_dot_been_used && char == '.' && index > 0 {")], ["C07"]),
    ("b-slot-lower", [(L, "if code.starts_with(\"'Z\") {", "if code.starts_with(\"'Z\") || code.starts_with(\"'z\") {")], ["C08"]),
    ("b-btw-cr", [(L, "let comment_contents = (&code[btw_str.len()..end_len_bytes]).to_string();", "let comment_contents = (&code[btw_str.len()..end_len_bytes]).trim_end_matches('\\r').to_string();")], ["C08"]),
    ("b-err-range", [(L, "(current_position.clone(), current_position + code).into(),", "(current_position.clone(), current_position + code.trim_end()).into(),")], ["C08"]),
    ("b-nbsp", [(L, "*char == ' ' || *char == '\\t' || *char == '\\r' {", "*char == ' ' || *char == '\\t' || *char == '\\r' || *char == '\\u{0B}' {")], ["C03"]),
    ("b-ident-apos", [(L, "        .take_while(|char| is_identifier_char(*char))\n        .count();\n\n    if non_ident", "        .take_while(|char| is_identifier_char(*char) || *char == '-')\n        .count();\n\n    if non_ident")], ["C08"]),
    ("b-sym-combine", [(L, "let symbol_len = code.chars().next().map_or(code.len(), char::len_utf8);", "let symbol_len = code.chars().take_while(|c| !c.is_ascii()).map(char::len_utf8).sum::<usize>().max(code.chars().next().map_or(0, char::len_utf8));")], ["C08"]),
    ("b-kw-space", [(L, "        Some(rest) => !rest.starts_with(is_identifier_char),", "        Some(rest) => !rest.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_'),")], ["C06"]),
    ("b-leftover-first", [(B, "            let error = ASTErrorType::TooManyTokens(remaining_tokens);", "            let error = ASTErrorType::TooManyTokens(remaining_tokens.into_iter().take(8).collect());")], ["C12"]),
    ("b-stop-on-kthx", [(B, "        if statement_iterator.peek().is_none() {\n            break;", "        if statement_iterator.peek().is_none() || matches!(block.0.back(), Some(Node::KThxBye(_))) {\n            break;")], ["C12"]),
    ("b-dup-error", [(B, "            block.0.push_back(error.into());", "            if !matches!(block.0.back(), Some(Node::ASTError(_))) {\n                block.0.push_back(error.into());\n            }")], ["C12"]),
    ("b-si-elllast", [(SI, "                self.tokens_iter\n                    .peek()\n                    .map(|t| self.current_line = t.range.start_line());\n                self.next()", "                self.current_line += 1;\n                self.next()")], ["C11"]),
    ("b-si-neq", [(SI, "            Some(token) if token.token_type != expected => self.next(),", "            Some(token) if std::mem::discriminant(&token.token_type) != std::mem::discriminant(&expected) => self.next(),")], ["C19"]),
    ("b-has-a-slot", [(S + "bukkit_set_slot.rs", "            None => return Err(ASTErrorType::MissingToken(slot_name.name)),", "            None => return Err(ASTErrorType::MissingToken(slot_name.srs.unwrap_or(slot_name.name))),")], ["C21"]),
    ("b-orly-noerr", [(S + "o_rly.rs", "            Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),", "            Some(Token { token_type: TokenType::Keyword(Keywords::MEBBE | Keywords::YA_RLY), .. }) => return Err(ASTErrorType::MissingBlockClosingToken(first_token)),\n            Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),")], ["C21"]),
    ("b-type-yarn", [(E + "identifier.rs", "TokenType::Keyword(Keywords::NUMBAR) => Ok(ASTType::Numbar(token)),", "TokenType::Keyword(Keywords::NUMBAR) => Ok(ASTType::Numbr(token)),")], ["C20"]),
    ("b-expr-win", [(E + "mod.rs", "            TokenType::Value(_) => Ok(", "            TokenType::Value(ref value) if *value != crate::lexer::TokenValue::String(String::new()) => Ok(")], ["C20"]),
    ("b-visible-empty", [(S + "visible.rs", "        let exclamation_mark = tokens", "        if expressions.is_empty() {\n            return Err(ASTErrorType::MissingToken(first_token));\n        }\n        let exclamation_mark = tokens")], ["C14"]),
    ("b-visible-flat", [(S + "visible.rs", "            expressions.push_back(ASTExpression::parse(token, tokens)?);", "            tokens.next_if_token_type_eq(TokenType::Keyword(crate::lexer::Keywords::AN));\n            expressions.push_back(ASTExpression::parse(token, tokens)?);")], ["C14"]),
    ("b-iiz-mkay", [(S + "i_is.rs", "            None => return Err(ASTErrorType::IIz(IIzError::MissingMkay(first_token))),", "            None if arguments.len() > 1 => {}\n            None => return Err(ASTErrorType::IIz(IIzError::MissingMkay(first_token))),")], ["C15"]),
    ("b-how-dup", [(S + "how_is_i.rs", "            arguments.push_back(param);", "            if param.srs.is_none() {\n                arguments.push_back(param);\n            }")], ["C15"]),
    ("b-loop-label", [(S + "im_in_yr.rs", "            ) => token,\n            Some(token) => return Err(ImInYrError::InvalidEndLabel(token).into()),", "            ) if token.token_type == label.token_type => token,\n            Some(token) => return Err(ImInYrError::InvalidEndLabel(token).into()),")], ["C16"]),
    ("b-wtf-default-first", [(S + "wtf.rs", "                expression,\n                block: parse_block_switch(tokens),", "                expression,\n                block: if omg.len() < 3 { parse_block_switch(tokens) } else { parse_block_if(tokens) },"), (S + "wtf.rs", "parse_block_switch,", "parse_block_switch, parse_block_if,")], ["C18"]),
    ("b-float-eq", [(T, "#[derive(Clone, Debug, PartialEq)]\npub enum NumberToken {", "#[derive(Clone, Debug)]\npub enum NumberToken {"), (T, "/// All possible literal values", "impl PartialEq for NumberToken {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (NumberToken::Int(a), NumberToken::Int(b)) => a == b,\n            (NumberToken::Float(a), NumberToken::Float(b)) => (a - b).abs() < f32::EPSILON,\n            _ => false,\n        }\n    }\n}\n\n/// All possible literal values")], ["C27"]),
    ("b-comment-tldr", [(M, "                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)\n", "                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_) | TokenType::Keyword(crate::lexer::Keywords::TLDR)\n")], ["C22"]),
]
