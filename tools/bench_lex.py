"""Edits of the tokenizer: b- must be reported for the given properties, n- keep the behaviour."""
L, P, K = "src/lexer/mod.rs", "src/lexer/position.rs", "src/lexer/keywords.rs"
IDENT = """    let non_ident_position = code
        .chars()
        .into_iter()
        .take_while(|char| is_identifier_char(*char))
        .count();

    if non_ident_position == 0 {
        None
    } else {
        Some(&code[..non_ident_position])
    }
"""
STR = """    let mut chars = code.char_indices().peekable();
    if let Some((_, char)) = chars.next() {
        if char != '"' {
            return None;
        };
    };

    while let Some((index, char)) = chars.next() {
        if char == ':' {
            if let Some((_, '"' | ':')) = chars.peek() {
                chars.next();
            }
        }

        if char == '"' {
            return Some((&code[..index + 1], &code[1..index]));
        };
    }

    Some((&code[..], &code[1..]))
"""
NUM = """    let mut has_dot_been_used = false;
    let position = code.chars().enumerate().position(|(index, char)| {
        if index as i32 == 0 && (char == '-' || char == '+') {
            return false;
        };
        if char >= '0' && char <= '9' {
            return false;
        };
        if !has_dot_been_used && char == '.' {
            has_dot_been_used = true;
            return false;
        };
        true
    });

    let number_str = &code[0..position.unwrap_or(code.len())];
"""
WS = """    code.chars()
        .into_iter()
        .take_while(|char| {
            if *char == '\\n' {
                position.line += 1;
                position.column = 1;
                position.bytes += char.len_utf8() as i32;
                position.chars += 1;
                true
            } else if *char == ' ' || *char == '\\t' || *char == '\\r' {
                position.column += 1;
                position.bytes += char.len_utf8() as i32;
                position.chars += 1;
                true
            } else {
                false
            }
        })
        .count()
"""
ADD = """        match rhs.rfind('\\n') {
            Some(last_newline) => {
                self.line = self.line + rhs.matches('\\n').count() as i32;
                self.column = (rhs.len() - last_newline) as i32;
            }
            None => self.column = self.column + rhs.len() as i32,
        }
        self.chars = self.chars + rhs.chars().count() as i32;
        self.bytes = self.bytes + rhs.bytes().len() as i32;
"""
KW = """    Keywords::iter()
        .find(|keyword| {
            let keyword_str: &str = keyword.to_string_slice();
            starts_with_word(code, keyword_str)
        })
        .and_then(|keyword| {
            Some((
                &code[0..keyword.to_string_slice().len()],
                (*keyword).clone(),
            ))
        })
"""
WORD = """    match code.strip_prefix(word) {
        Some(rest) => !rest.starts_with(is_identifier_char),
        None => false,
    }
"""
SLC = """        let end_len_bytes = code.find('\\n').unwrap_or(code.len());
        let comment_contents = (&code[btw_str.len()..end_len_bytes]).to_string();
        Some((&code[..end_len_bytes], comment_contents))
"""
MLC = """        let end_len_bytes = match code.find(tldr_str) {
            None => return Err(()),
            Some(bytes) => bytes,
        };

        let comment_contents = (&code[obtw_str.len()..end_len_bytes]).to_string();
        Ok(Some((
            &code[..end_len_bytes + tldr_str.len()],
            comment_contents,
        )))
"""
def e(name, old, new, props, f=L):
    return (name, [(f, old, new)], props)
EDITS = [
 e("b-slotone", """code.starts_with("'Z")""", """code.starts_with("'")""", ["C01", "C08"]),
 e("b-stresc", """Some((_, '"' | ':'))""", """Some((_, '"'))""", ["C07"]),
 e("b-stresc2", """if char == ':' {\n            if let Some((_, '"' | ':')) = chars.peek() {\n                chars.next();\n            }\n        }""", """if char == ':' {\n            if let Some((_, '"' | ':' | ')' | 'o')) = chars.peek() {\n                chars.next();\n                chars.next();\n            }\n        }""", ["C07"]),
 e("b-strunterm", "Some((&code[..], &code[1..]))", "None", ["C07"]),
 e("b-strcont", "&code[1..index]", "&code[1..index + 1]", ["C07"]),
 e("b-strcount", "code.char_indices().peekable()", "code.chars().enumerate().peekable()", ["C01"]),
 e("b-poschars", "self.chars + rhs.chars().count() as i32", "self.chars + rhs.len() as i32", ["C04"], P),
 e("b-poscol", "(rhs.len() - last_newline) as i32", "(rhs.len() - last_newline - 1) as i32", ["C04"], P),
 e("b-posfind", "rhs.rfind('\\n')", "rhs.find('\\n')", ["C04"], P),
 e("b-posline", "rhs.matches('\\n').count() as i32", "1", ["C04"], P),
 e("b-poslines", "rhs.matches('\\n').count() as i32", "(rhs.lines().count() as i32 - 1)", ["C04"], P),
 e("b-wsuni", "*char == ' ' || *char == '\\t' || *char == '\\r'", "char.is_whitespace()", ["C01"]),
 e("b-wsff", "*char == ' ' || *char == '\\t' || *char == '\\r'", "char.is_ascii_whitespace()", ["C03", "C08"]),
 e("b-wstab", "*char == ' ' || *char == '\\t' || *char == '\\r'", "*char == ' ' || *char == '\\t'", ["C03", "C08"]),
 e("b-wscol", "                position.column = 1;", "                position.column = 0;", ["C04"]),
 e("b-wscr", "            if *char == '\\n' {", "            if *char == '\\n' || *char == '\\r' {", ["C04"]),
 e("b-ell1", "Some(&code[..'\\u{2026}'.len_utf8()])", "Some(&code[..1])", ["C01"]),
 e("b-ell2", 'code.starts_with("...") {\n        Some(&code[..3])', 'code.starts_with("..") {\n        Some(&code[..3])', ["C01", "C08"]),
 e("b-identdig", "    if code.starts_with(|char: char| char >= '0' && char <= '9') {\n        return None;\n    }\n\n", "", ["C08"]),
 e("b-identuni", "(char >= 'a' && char <= 'z')", "char.is_lowercase()", ["C01"]),
 e("b-identalnum", "    char == '_'\n        || (char >= 'a' && char <= 'z')\n        || (char >= 'A' && char <= 'Z')\n        || (char >= '0' && char <= '9')", "    char == '_' || char.is_alphanumeric()", ["C01"]),
 e("b-identz", "(char >= 'a' && char <= 'z')", "(char >= 'a' && char < 'z')", ["C06", "C08"]),
 e("b-bool", "if starts_with_word(code, true_str) {", "if code.starts_with(true_str) {", ["C06"]),
 e("b-noob", "if starts_with_word(code, noob_str) {", "if code.starts_with(noob_str) {", ["C06"]),
 e("b-boolswap", "Some((&code[..false_str.len()], false))", "Some((&code[..false_str.len()], true))", ["C07"]),
 e("b-boollen", "Some((&code[..false_str.len()], false))", "Some((&code[..true_str.len()], false))", ["C03"]),
 e("b-mlrfind", "code.find(tldr_str)", "code.rfind(tldr_str)", ["C08"]),
 e("b-mlend", "&code[..end_len_bytes + tldr_str.len()]", "&code[..end_len_bytes]", ["C03"]),
 e("b-mlcont", "&code[obtw_str.len()..end_len_bytes]", "&code[tldr_str.len() + 1..end_len_bytes]", ["C01", "C08"]),
 e("b-slnl", "code.find('\\n').unwrap_or(code.len())", "code.find('\\n').map_or(code.len(), |x| x + 1)", ["C08"]),
 e("b-slcr", "code.find('\\n').unwrap_or(code.len())", "code.find(|c| c == '\\n' || c == '\\r').unwrap_or(code.len())", ["C08"]),
 e("b-errrange", "(current_position.clone(), current_position + code).into()", "(current_position.clone(), current_position.clone()).into()", ["C08"]),
 e("b-errok", "return Err(TokenError::UnclosedMultilineComment(\n                    (current_position.clone(), current_position + code).into(),\n                ))", "break", ["C08"]),
 e("b-numsign", "if index as i32 == 0 && (char == '-' || char == '+')", "if char == '-' || char == '+'", ["C07"]),
 e("b-numplus", "(char == '-' || char == '+')", "char == '-'", ["C07"]),
 e("b-numdots", "if !has_dot_been_used && char == '.'", "if char == '.'", ["C07"]),
 e("b-numell", 'let code = &code[..code.find("...").unwrap_or(code.len())];', "", ["C07"]),
 e("b-numell2", 'let code = &code[..code.find("...").unwrap_or(code.len())];', 'let code = &code[..code.find("..").unwrap_or(code.len())];', ["C07"]),
 e("b-numval", "NumberToken::Int(number_str.parse().ok()?)", "NumberToken::Int(number_str.parse().unwrap_or(0))", ["C07"]),
 e("b-numi64", "NumberToken::Int(number_str.parse().ok()?)", "NumberToken::Int(number_str.parse::<i64>().ok()? as i32)", ["C07"]),
 e("b-numunwrap", "NumberToken::Float(number_str.parse().ok()?)", "NumberToken::Float(number_str.parse().unwrap())", ["C01"]),
 e("b-numtrim", "NumberToken::Int(number_str.parse().ok()?)", "NumberToken::Int(number_str.trim_start_matches('-').parse().ok()?)", ["C07"]),
 e("b-sym1", "&code[..symbol_len]", "&code[..1]", ["C01"]),
 e("b-symtext", "TokenType::Symbol(raw_symbol.to_string())", "TokenType::Symbol(code.to_string())", ["C08"]),
 e("b-loop1", "while code.len() > 0 {", "while code.len() > 1 {", ["C03"]),
 e("b-ws1", "            if chars > 0 {\n", "            if chars > 1 {\n", ["C03", "C08"]),
 e("b-wsskip", "                code = &code[chars..];\n                continue;", "                continue;", ["C02"]),
 e("b-mtadv", "    *code = &code[raw_string.len()..];\n", "    *code = &code[raw_string.len().min(code.len() - 1)..];\n", ["C02"]),
 e("b-startcol", "        column: 1,\n        bytes: 0,", "        column: 0,\n        bytes: 0,", ["C04"]),
 e("b-comma2", "let raw_comma = &code[..1];", "let raw_comma = &code[..2];", ["C01"]),
 e("b-range", "(start_position, current_position.clone()).into()", "(current_position.clone(), current_position.clone()).into()", ["C03", "C04"]),
 e("b-kwnoword", "starts_with_word(code, keyword_str)", "code.starts_with(keyword_str)", ["C06"]),
 e("b-kwcase", "starts_with_word(code, keyword_str)", "starts_with_word(&code.to_uppercase(), keyword_str)", ["C06"]),
 e("b-kwund", "!rest.starts_with(is_identifier_char)", "!rest.starts_with(|c: char| c.is_ascii_alphanumeric())", ["C06"]),
 e("b-kwend", "!rest.starts_with(is_identifier_char)", "rest.starts_with(|c: char| !is_identifier_char(c))", ["C06"]),
 e("b-kwdig", "!rest.starts_with(is_identifier_char)", "!rest.starts_with(char::is_alphabetic)", ["C06"]),
 e("b-btwword", "if code.starts_with(btw_str) {", "if starts_with_word(code, btw_str) {", ["C08"]),
 ("b-order", [(L, "        if let Some((raw_boolean, value)) = parse_boolean(code) {", "        if let Some(identifier) = parse_identifier(code).filter(|i| i.len() == 1) {\n            tokens.push(make_token(\n                &mut code,\n                &mut current_position,\n                identifier,\n                TokenType::Identifier(identifier.to_string()),\n            ));\n            continue;\n        }\n\n        if let Some((raw_boolean, value)) = parse_boolean(code) {")], ["C05", "C06"]),
 # ---- edits that keep the behaviour
 e("n-identfind", IDENT, """    let end = code.find(|char| !is_identifier_char(char)).unwrap_or(code.len());
    if end == 0 { None } else { Some(&code[..end]) }
""", []),
 e("n-identloop", IDENT, """    let mut end = 0;
    for char in code.chars() {
        if !is_identifier_char(char) {
            break;
        }
        end += char.len_utf8();
    }
    match end {
        0 => None,
        n => Some(&code[..n]),
    }
""", []),
 e("n-identindices", IDENT, """    let mut end = code.len();
    for (index, char) in code.char_indices() {
        if !is_identifier_char(char) {
            end = index;
            break;
        }
    }
    (end > 0).then(|| &code[..end])
""", []),
 e("n-identbytes", IDENT, """    let len = code.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'_').count();
    if len > 0 { Some(&code[..len]) } else { None }
""", []),
 e("n-identtrim", IDENT, """    let rest = code.trim_start_matches(is_identifier_char);
    let len = code.len() - rest.len();
    if len == 0 { return None; }
    Some(&code[..len])
""", []),
 e("n-identascii", "    char == '_'\n        || (char >= 'a' && char <= 'z')\n        || (char >= 'A' && char <= 'Z')\n        || (char >= '0' && char <= '9')", "    matches!(char, '_' | 'a'..='z' | 'A'..='Z' | '0'..='9')", []),
 e("n-identascii2", "    char == '_'\n        || (char >= 'a' && char <= 'z')\n        || (char >= 'A' && char <= 'Z')\n        || (char >= '0' && char <= '9')", "    char.is_ascii_alphanumeric() || char == '_'", []),
 e("n-strfor", STR, """    let mut chars = code.char_indices();
    match chars.next() {
        Some((_, '"')) => {}
        _ => return None,
    }
    let mut escaped = false;
    for (index, char) in chars {
        if escaped {
            escaped = false;
            if char == '"' || char == ':' {
                continue;
            }
        }
        match char {
            ':' => escaped = true,
            '"' => return Some((&code[..=index], &code[1..index])),
            _ => {}
        }
    }
    Some((code, &code[1..]))
""", []),
 e("n-strstrip", STR, """    let body = code.strip_prefix('"')?;
    let mut chars = body.char_indices().peekable();
    while let Some((index, char)) = chars.next() {
        match char {
            ':' => {
                chars.next_if(|(_, c)| *c == '"' || *c == ':');
            }
            '"' => return Some((&code[..index + 2], &body[..index])),
            _ => (),
        }
    }
    Some((code, body))
""", []),
 e("n-numloop", NUM, """    let mut has_dot_been_used = false;
    let mut end = code.len();
    for (index, char) in code.char_indices() {
        match char {
            '-' | '+' if index == 0 => {}
            '0'..='9' => {}
            '.' if !has_dot_been_used => has_dot_been_used = true,
            _ => {
                end = index;
                break;
            }
        }
    }
    let number_str = &code[..end];
""", []),
 e("n-numfind", NUM, """    let mut has_dot_been_used = false;
    let mut first = true;
    let end = code
        .find(|char: char| {
            let at_start = std::mem::replace(&mut first, false);
            if char == '.' && !has_dot_been_used {
                has_dot_been_used = true;
                return false;
            }
            !(char.is_ascii_digit() || at_start && matches!(char, '-' | '+'))
        })
        .unwrap_or(code.len());
    let number_str = &code[..end];
""", []),
 e("n-numbytes", NUM, """    let mut has_dot_been_used = false;
    let bytes = code.as_bytes();
    let mut end = 0;
    if end < bytes.len() && (bytes[end] == b'-' || bytes[end] == b'+') {
        end += 1;
    }
    while end < bytes.len() {
        if bytes[end] == b'.' && !has_dot_been_used {
            has_dot_been_used = true;
        } else if !bytes[end].is_ascii_digit() {
            break;
        }
        end += 1;
    }
    let number_str = &code[..end];
""", []),
 e("n-wsfor", WS, """    let mut count = 0;
    for char in code.chars() {
        match char {
            '\\n' => {
                position.line += 1;
                position.column = 1;
            }
            ' ' | '\\t' | '\\r' => position.column += 1,
            _ => break,
        }
        position.bytes += 1;
        position.chars += 1;
        count += 1;
    }
    count
""", []),
 e("n-wstrim", WS, """    let rest = code.trim_start_matches(|c| c == ' ' || c == '\\t' || c == '\\r' || c == '\\n');
    let white = &code[..code.len() - rest.len()];
    *position += white;
    white.len()
""", []),
 e("n-wsfind", WS, """    let len = code.find(|c: char| !matches!(c, ' ' | '\\t' | '\\r' | '\\n')).unwrap_or(code.len());
    *position += &code[..len];
    len
""", []),
 e("n-addfor", ADD, """        for char in rhs.chars() {
            if char == '\\n' {
                self.line += 1;
                self.column = 1;
            } else {
                self.column += char.len_utf8() as i32;
            }
            self.chars += 1;
        }
        self.bytes += rhs.len() as i32;
""", [], P),
 e("n-addif", ADD, """        let newlines = rhs.chars().filter(|c| *c == '\\n').count() as i32;
        if newlines > 0 {
            self.line += newlines;
            self.column = 1 + rhs.rsplit('\\n').next().map_or(0, str::len) as i32;
        } else {
            self.column += rhs.len() as i32;
        }
        self.chars += rhs.chars().count() as i32;
        self.bytes += rhs.len() as i32;
""", [], P),
 e("n-addif2", ADD, """        if let Some(last) = rhs.rfind('\\n') {
            self.line += rhs.bytes().filter(|b| *b == b'\\n').count() as i32;
            self.column = 1 + rhs[last + 1..].len() as i32;
        } else {
            self.column += rhs.len() as i32;
        }
        self.chars += rhs.chars().count() as i32;
        self.bytes += rhs.len() as i32;
""", [], P),
 e("n-kwfor", KW, """    for keyword in Keywords::iter() {
        let text = keyword.to_string_slice();
        if starts_with_word(code, text) {
            return Some((&code[..text.len()], keyword.clone()));
        }
    }
    None
""", []),
 e("n-kwmap", KW, """    Keywords::iter()
        .map(|keyword| (keyword.to_string_slice(), keyword))
        .find(|(text, _)| starts_with_word(code, text))
        .map(|(text, keyword)| (&code[..text.len()], keyword.clone()))
""", []),
 e("n-word2", WORD, """    code.starts_with(word)
        && !code[word.len()..]
            .chars()
            .next()
            .map_or(false, is_identifier_char)
""", []),
 e("n-word3", WORD, """    if !code.starts_with(word) {
        return false;
    }
    match code[word.len()..].chars().next() {
        Some(c) => !is_identifier_char(c),
        None => true,
    }
""", []),
 e("n-slclines", SLC, """        let comment_str = code.split('\\n').next().unwrap_or(code);
        Some((comment_str, comment_str[btw_str.len()..].to_string()))
""", []),
 e("n-slcmatch", SLC, """        let line = match code.find('\\n') {
            Some(end) => &code[..end],
            None => code,
        };
        Some((line, line[btw_str.len()..].to_owned()))
""", []),
 e("n-slconce", SLC, """        let line = code.split_once('\\n').map_or(code, |(line, _)| line);
        Some((line, String::from(&line[btw_str.len()..])))
""", []),
 e("n-mlcq", MLC, """        let rest = &code[obtw_str.len()..];
        let len = rest.find(tldr_str).ok_or(())?;
        let end = obtw_str.len() + len + tldr_str.len();
        Ok(Some((&code[..end], rest[..len].to_string())))
""", []),
 e("n-mlconce", MLC, """        match code[obtw_str.len()..].split_once(tldr_str) {
            Some((contents, rest)) => Ok(Some((&code[..code.len() - rest.len()], contents.to_string()))),
            None => Err(()),
        }
""", []),
 ("n-strip", [(L, "    if code.starts_with(btw_str) {\n" + SLC + "    } else {\n        None\n    }\n", """    let rest = code.strip_prefix(btw_str)?;
    let len = rest.find('\\n').unwrap_or(rest.len());
    Some((&code[..btw_str.len() + len], rest[..len].to_string()))
""")], []),
 e("n-empty", "while code.len() > 0 {", "while !code.is_empty() {", []),
 e("n-cap", "let mut tokens = Vec::new();", "let mut tokens = Vec::with_capacity(code.len() / 4);", []),
 e("n-sym", "    let symbol_len = code.chars().next().map_or(code.len(), char::len_utf8);\n", "    let symbol_len = code.char_indices().nth(1).map_or(code.len(), |(i, _)| i);\n", []),
 e("n-sym2", "let symbol_len = code.chars().next().map_or(code.len(), char::len_utf8);", "let mut it = code.chars(); it.next(); let symbol_len = code.len() - it.as_str().len();", []),
 e("n-mt", "    let start_position = current_position.clone();\n    *current_position += raw_string;\n", "    let start_position = *current_position;\n    *current_position = start_position + raw_string;\n", []),
 e("n-mtsplit", "    *code = &code[raw_string.len()..];\n", "    let (_, rest) = code.split_at(raw_string.len());\n    *code = rest;\n", []),
 e("n-ell", """    if code.starts_with("...") {
        Some(&code[..3])
    } else if code.starts_with('\\u{2026}') {
        Some(&code[..'\\u{2026}'.len_utf8()])
    } else {
        None
    }
""", """    for ellipsis in ["...", "\\u{2026}"] {
        if code.starts_with(ellipsis) {
            return Some(&code[..ellipsis.len()]);
        }
    }
    None
""", []),
 e("n-ellget", """    if code.starts_with("...") {
        Some(&code[..3])
    } else if code.starts_with('\\u{2026}') {
        Some(&code[..'\\u{2026}'.len_utf8()])
    } else {
        None
    }
""", """    ["...", "\\u{2026}"].iter().find(|e| code.starts_with(**e)).map(|e| &code[..e.len()])
""", []),
 ("n-matchpunct", [(L, """        // Parse comma
        if code.starts_with(',') {
            let raw_comma = &code[..1];
            tokens.push(make_token(
                &mut code,
                &mut current_position,
                raw_comma,
                TokenType::Comma,
            ));
            continue;
        }

        if code.starts_with('!') {
            let raw_exclamation_mark = &code[..1];
            tokens.push(make_token(
                &mut code,
                &mut current_position,
                raw_exclamation_mark,
                TokenType::ExclamationMark,
            ));
            continue;
        }

        if code.starts_with('?') {
            let raw_question_mark = &code[..1];
            tokens.push(make_token(
                &mut code,
                &mut current_position,
                raw_question_mark,
                TokenType::QuestionMark,
            ));
            continue;
        }
""", """        let punctuation = match code.chars().next() {
            Some(',') => Some(TokenType::Comma),
            Some('!') => Some(TokenType::ExclamationMark),
            Some('?') => Some(TokenType::QuestionMark),
            _ => None,
        };
        if let Some(kind) = punctuation {
            let raw = &code[..1];
            tokens.push(make_token(&mut code, &mut current_position, raw, kind));
            continue;
        }
""")], []),
 ("n-bytespunct", [(L, "        if code.starts_with(',') {\n", "        if code.as_bytes()[0] == b',' {\n"), (L, "        if code.starts_with('!') {\n", "        if code.bytes().next() == Some(b'!') {\n")], []),
 ("n-macro", [(L, "/// Transformas a string", """struct Lexer<'a> {
    code: &'a str,
    position: Position,
    tokens: Vec<Token>,
}

impl<'a> Lexer<'a> {
    fn emit(&mut self, raw: &'a str, token_type: TokenType) {
        let token = make_token(&mut self.code, &mut self.position, raw, token_type);
        self.tokens.push(token);
    }

    fn skip(&mut self) -> bool {
        let n = parse_whitespace(self.code, &mut self.position);
        self.code = &self.code[n..];
        n > 0
    }

    fn value(&mut self) -> bool {
        let code = self.code;
        if let Some((raw, value)) = parse_boolean(code) {
            self.emit(raw, TokenType::Value(TokenValue::Boolean(value)));
        } else if let Some(raw) = parse_noob(code) {
            self.emit(raw, TokenType::Value(TokenValue::NOOB));
        } else if let Some((raw, keyword)) = parse_keyword(code) {
            self.emit(raw, TokenType::Keyword(keyword));
        } else if let Some((raw, number)) = parse_number(code) {
            self.emit(raw, TokenType::Value(TokenValue::Number(number)));
        } else if let Some((raw, string)) = parse_string(code) {
            self.emit(raw, TokenType::Value(TokenValue::String(string.to_string())));
        } else if let Some(identifier) = parse_identifier(code) {
            self.emit(identifier, TokenType::Identifier(identifier.to_string()));
        } else {
            return false;
        }
        true
    }

    fn comment(&mut self) -> Result<bool, TokenError> {
        let code = self.code;
        if let Some((raw, text)) = parse_single_line_comment(code) {
            self.emit(raw, TokenType::CommentSingleLine(text));
            return Ok(true);
        }
        match parse_multi_line_comment(code) {
            Ok(None) => Ok(false),
            Ok(Some((raw, text))) => {
                self.emit(raw, TokenType::CommentMultiLine(text));
                Ok(true)
            }
            Err(()) => Err(TokenError::UnclosedMultilineComment((self.position, self.position + code).into())),
        }
    }

    fn run(mut self) -> Result<Vec<Token>, TokenError> {
        while let Some(first) = self.code.chars().next() {
            if self.skip() || self.comment()? {
                continue;
            }
            let code = self.code;
            match first {
                ',' => self.emit(&code[..1], TokenType::Comma),
                '!' => self.emit(&code[..1], TokenType::ExclamationMark),
                '?' => self.emit(&code[..1], TokenType::QuestionMark),
                _ => {
                    if let Some(raw) = parse_bukkit_slot_access(code) {
                        self.emit(raw, TokenType::BukkitSlotAccess);
                    } else if let Some(raw) = parse_ellipsis(code) {
                        self.emit(raw, TokenType::Ellipsis);
                    } else if !self.value() {
                        let raw = &code[..first.len_utf8()];
                        self.emit(raw, TokenType::Symbol(raw.to_string()));
                    }
                }
            }
        }
        Ok(self.tokens)
    }
}

/// Transforms a string of LOLCODE code into a vector of tokens.
pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {
    Lexer {
        code: &code,
        position: Position::default(),
        tokens: Vec::new(),
    }
    .run()
}

#[allow(dead_code)]
/// Transformas a string"""), (L, "pub fn tokenize(code: String) -> Result<Vec<Token>, TokenError> {\n    let mut tokens", "fn tokenize_old(code: String) -> Result<Vec<Token>, TokenError> {\n    let mut tokens")], []),
 ("n-order", [(L, "        if let Some(access_str) = parse_bukkit_slot_access(code) {", "        if let Some(ellipsis) = parse_ellipsis(code) {\n            tokens.push(make_token(&mut code, &mut current_position, ellipsis, TokenType::Ellipsis));\n            continue;\n        }\n\n        if let Some(access_str) = parse_bukkit_slot_access(code) {")], []),
 ("n-default", [(L, "let mut current_position = Position {\n        line: 1,\n        column: 1,\n        bytes: 0,\n        chars: 0,\n    };", "let mut current_position = Position::default();")], []),
 ("n-parsebool", [(L, """    if starts_with_word(code, true_str) {
        Some((&code[..true_str.len()], true))
    } else if starts_with_word(code, false_str) {
        Some((&code[..false_str.len()], false))
    } else {
        None
    }
""", """    [(true_str, true), (false_str, false)]
        .into_iter()
        .find(|(word, _)| starts_with_word(code, word))
        .map(|(word, value)| (&code[..word.len()], value))
""")], []),
 ("n-thendo", [(L, """    if starts_with_word(code, noob_str) {
        Some(&code[..noob_str.len()])
    } else {
        None
    }
""", "    starts_with_word(code, noob_str).then(|| &code[..noob_str.len()])\n")], []),
 ("n-chain", [(L, """        if let Some((number_str, number)) = parse_number(code) {
            tokens.push(make_token(
                &mut code,
                &mut current_position,
                number_str,
                TokenType::Value(TokenValue::Number(number)),
            ));
            continue;
        }

        if let Some((raw_string, string)) = parse_string(code) {
            tokens.push(make_token(
                &mut code,
                &mut current_position,
                raw_string,
                TokenType::Value(TokenValue::String(string.to_string())),
            ));
            continue;
        }
""", """        let literal = parse_string(code)
            .map(|(raw, string)| (raw, TokenValue::String(string.to_string())))
            .or_else(|| parse_number(code).map(|(raw, number)| (raw, TokenValue::Number(number))));
        if let Some((raw, value)) = literal {
            let token = make_token(&mut code, &mut current_position, raw, TokenType::Value(value));
            tokens.push(token);
            continue;
        }
""")], []),
]
