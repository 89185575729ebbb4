"""Edits for C26, C27, C28."""
CHECKS = ["C26", "C27", "C28"]
R, P, T, L, LIB, B = "src/lexer/range.rs", "src/lexer/position.rs", "src/lexer/token.rs", "src/lexer/mod.rs", "src/lib.rs", "src/parser/blocks.rs"
REQ = "        self.0 == other.0 && self.1 == other.1"
PEQ = "        self.line == other.line && self.column == other.column"
CMP = "        Some((self.line, self.column).cmp(&(other.line, other.column)))"
TOK = "    let tokens = tokenize(code)?;"
DER = "#[derive(Clone, Debug, PartialEq)]\npub enum NumberToken {"
BLK = "#[derive(Debug, PartialEq, Clone)]\npub struct ASTBlock(pub VecDeque<Node>);"
EDITS = [
    ("b-range0", [(R, REQ, "        self.0 == other.0")], ["C27", "C28"]),
    ("b-rangelt", [(R, REQ, "        self.0 == other.0 && self.1 <= other.1")], ["C27", "C28"]),
    ("b-rangeline", [(R, REQ, "        self.0 == other.0 && self.1.line == other.1.line")], ["C27", "C28"]),
    ("b-poscolonly", [(P, PEQ, "        self.column == other.column")], ["C27", "C28"]),
    ("b-posor", [(P, PEQ, "        self.line == other.line || self.column == other.column")], ["C27", "C28"]),
    ("b-posbytes", [(P, PEQ, "        self.bytes == other.bytes")], ["C27", "C28"]),
    ("b-cmpbytes", [(P, CMP, "        Some(self.bytes.cmp(&other.bytes))")], ["C28"]),
    ("b-cmprev", [(P, CMP, "        Some((other.line, self.column).cmp(&(self.line, other.column)))")], ["C28"]),
    ("b-cmpnone", [(P, CMP, "        if self.line != other.line { return None; }\n        self.column.partial_cmp(&other.column)")], ["C28"]),
    ("b-cmpcol", [(P, CMP, "        Some((self.column, self.line).cmp(&(other.column, other.line)))")], ["C28"]),
    ("b-lt", [(P, CMP + "\n    }", CMP + "\n    }\n    fn le(&self, other: &Self) -> bool { self.line < other.line || self.column <= other.column }")], ["C28"]),
    ("n-range", [(R, REQ, "        let Range(a, b) = self;\n        let Range(c, d) = other;\n        if a != c { return false; }\n        b == d")], []),
    ("n-range2", [(R, REQ, "        (self.0, self.1) == (other.0, other.1)")], []),
    ("n-range3", [(R, REQ, "        self.0.line == other.0.line && self.0.column == other.0.column && self.1 == other.1")], []),
    ("n-pos", [(P, PEQ, "        (self.line, self.column) == (other.line, other.column)")], []),
    ("n-pos2", [(P, PEQ, "        self.partial_cmp(other) == Some(std::cmp::Ordering::Equal)")], []),
    ("n-cmp", [(P, CMP, "        match self.line.cmp(&other.line) {\n            std::cmp::Ordering::Equal => self.column.partial_cmp(&other.column),\n            o => Some(o),\n        }")], []),
    ("n-cmp2", [(P, CMP, "        Some(self.line.cmp(&other.line).then(self.column.cmp(&other.column)))")], []),
    ("n-cmp3", [(P, CMP, "        Some(self.line.cmp(&other.line).then_with(|| self.column.cmp(&other.column)))")], []),
    ("n-cmp4", [(P, CMP, "        if self == other { return Some(std::cmp::Ordering::Equal); }\n        if self.line < other.line || (self.line == other.line && self.column < other.column) {\n            Some(std::cmp::Ordering::Less)\n        } else {\n            Some(std::cmp::Ordering::Greater)\n        }")], []),
    ("n-ord", [(P, CMP, "        Some(self.cmp(other))"), (P, "impl Add<&str>", "impl Ord for Position {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.line.cmp(&other.line).then(self.column.cmp(&other.column))\n    }\n}\n\nimpl Add<&str>")], []),
    ("n-cloneman", [(R, "#[derive(Clone)]\n", "impl Clone for Range {\n    fn clone(&self) -> Self {\n        Range(self.0, self.1)\n    }\n}\n")], []),
    ("b-cloneman", [(R, "#[derive(Clone)]\n", "impl Clone for Range {\n    fn clone(&self) -> Self {\n        Range(self.0, self.0)\n    }\n}\n")], ["C27"]),
    ("b-numeq", [(T, DER, "impl PartialEq for NumberToken {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (NumberToken::Int(a), NumberToken::Int(b)) => a == b,\n            (NumberToken::Float(a), NumberToken::Float(b)) => a == b,\n            (NumberToken::Int(a), NumberToken::Float(b)) | (NumberToken::Float(b), NumberToken::Int(a)) => *a as f32 == *b,\n        }\n    }\n}\n" + DER.replace(", PartialEq", ""))], ["C27"]),
    ("n-numeq", [(T, DER, "impl PartialEq for NumberToken {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (NumberToken::Int(a), NumberToken::Int(b)) => a == b,\n            (NumberToken::Float(a), NumberToken::Float(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n" + DER.replace(", PartialEq", ""))], []),
    ("b-tokeq", [(T, "#[derive(Clone, PartialEq)]\npub struct Token {", "impl PartialEq for Token {\n    fn eq(&self, other: &Self) -> bool {\n        self.token_type == other.token_type\n    }\n}\n#[derive(Clone)]\npub struct Token {")], ["C27"]),
    ("b-tokeqid", [(T, "#[derive(Clone, Debug, PartialEq)]\npub enum TokenType {", "impl PartialEq for TokenType {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (TokenType::Identifier(a), TokenType::Identifier(b)) => a.eq_ignore_ascii_case(b),\n            (TokenType::Symbol(a), TokenType::Symbol(b)) | (TokenType::CommentSingleLine(a), TokenType::CommentSingleLine(b)) | (TokenType::CommentMultiLine(a), TokenType::CommentMultiLine(b)) => a == b,\n            (TokenType::Keyword(a), TokenType::Keyword(b)) => a == b,\n            (TokenType::Value(a), TokenType::Value(b)) => a == b,\n            _ => std::mem::discriminant(self) == std::mem::discriminant(other),\n        }\n    }\n}\n#[derive(Clone, Debug)]\npub enum TokenType {")], ["C27"]),
    ("n-tokeqid", [(T, "#[derive(Clone, Debug, PartialEq)]\npub enum TokenType {", "impl PartialEq for TokenType {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (TokenType::Identifier(a), TokenType::Identifier(b)) => a == b,\n            (TokenType::Symbol(a), TokenType::Symbol(b)) | (TokenType::CommentSingleLine(a), TokenType::CommentSingleLine(b)) | (TokenType::CommentMultiLine(a), TokenType::CommentMultiLine(b)) => a == b,\n            (TokenType::Keyword(a), TokenType::Keyword(b)) => a == b,\n            (TokenType::Value(a), TokenType::Value(b)) => a == b,\n            _ => std::mem::discriminant(self) == std::mem::discriminant(other),\n        }\n    }\n}\n#[derive(Clone, Debug)]\npub enum TokenType {")], []),
    ("b-blkeq", [(B, BLK, "impl PartialEq for ASTBlock {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)\n    }\n}\n" + BLK.replace(", PartialEq", ""))], ["C27"]),
    ("n-blkeq", [(B, BLK, "impl PartialEq for ASTBlock {\n    fn eq(&self, other: &Self) -> bool {\n        self.0.len() == other.0.len() && self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)\n    }\n}\n" + BLK.replace(", PartialEq", ""))], []),
    ("b-blkclone", [(B, BLK, "impl Clone for ASTBlock {\n    fn clone(&self) -> Self {\n        ASTBlock(self.0.iter().filter(|n| !matches!(n, Node::ASTError(_))).cloned().collect())\n    }\n}\n" + BLK.replace(", Clone", ""))], ["C27"]),
    ("n-blkclone", [(B, BLK, "impl Clone for ASTBlock {\n    fn clone(&self) -> Self {\n        ASTBlock(self.0.iter().cloned().collect())\n    }\n}\n" + BLK.replace(", Clone", ""))], []),
    ("b-rc", [(T, "    Identifier(String),", "    Identifier(std::rc::Rc<str>),")], ["BUILD"]),
    ("b-env", [(LIB, TOK, '    if std::env::var("LOL").is_ok() { return Ok(Default::default()); }\n' + TOK)], ["C26"]),
    ("b-print", [(LIB, TOK, TOK + '\n    if tokens.len() > 100000 { eprintln!("long"); }')], ["C26"]),
    ("b-static", [(LIB, TOK, '    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 1000 { return Ok(Default::default()); }\n' + TOK)], ["C26"]),
    ("b-tls", [(L, "fn parse_number(", "thread_local! { static SEEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }\nfn parse_number("), (L, "    let mut has_dot_been_used = false;", "    let mut has_dot_been_used = SEEN.with(|s| { s.set(s.get() + 1); s.get() > 5000 });")], ["C26"]),
    ("b-once", [(LIB, TOK, '    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n    if *N.get_or_init(|| code.len()) > 100000 { return Ok(Default::default()); }\n' + TOK)], ["C26"]),
    ("n-once", [(LIB, TOK, '    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n    if *N.get_or_init(|| 3usize) != 3 { return Ok(Default::default()); }\n' + TOK)], []),
    ("b-unsafe", [(LIB, TOK, '    let code = unsafe { String::from_utf8_unchecked(code.into_bytes()) };\n' + TOK)], ["C26"]),
    ("b-thread", [(LIB, TOK, '    let tokens = std::thread::spawn(move || tokenize(code)).join().unwrap()?;')], ["C26"]),
    ("b-time", [(LIB, TOK, '    let t = std::time::Instant::now();\n' + TOK + '\n    if t.elapsed().as_secs() > 10 { return Ok(Default::default()); }')], ["C26"]),
    ("b-hash", [(LIB, TOK, TOK + '\n    let m: std::collections::HashSet<usize> = (0..tokens.len()).collect();\n    if m.iter().next() == Some(&77777) { return Ok(Default::default()); }')], ["C26"]),
    ("n-const", [(LIB, TOK, '    const N: usize = 4;\n    static NAMES: [&str; 2] = ["a", "b"];\n    if NAMES.len() > N { return Ok(Default::default()); }\n' + TOK)], []),
    ("n-cell", [(LIB, TOK, '    let n = std::cell::Cell::new(0);\n    n.set(1);\n' + TOK)], []),
    ("n-dyn", [(LIB, TOK, '    let f: &dyn Fn(String) -> Result<Vec<lexer::Token>, TokenError> = &tokenize;\n    let tokens = f(code)?;')], []),
    ("b-dyn", [(LIB, TOK, '    let f: Box<dyn Fn(String) -> Result<Vec<lexer::Token>, TokenError>> = Box::new(|c| { println!("{c}"); tokenize(c) });\n    let tokens = f(code)?;')], ["C26"]),
    ("b-drop", [(LIB, "    let tokens = tokenize(code)?;", "    struct G;\n    impl Drop for G { fn drop(&mut self) { eprintln!(\"done\") } }\n    let _g = G;\n    let tokens = tokenize(code)?;")], ["C26"]),
]
