"""Edits for C29."""
CHECKS = ["C29"]
LIB, L, W, O, V, K, E = "src/lib.rs", "src/lexer/mod.rs", "src/parser/statements/wtf.rs", "src/parser/statements/o_rly.rs", "src/parser/statements/visible.rs", "src/lexer/keywords.rs", "src/parser/expression/mod.rs"
GLUE = "    let tokens = tokenize(code)?;\n    Ok(parse(tokens))"
EDITS = [
    # ---- seam
    ("b-dedup", [(LIB, GLUE, "    let mut tokens = tokenize(code)?;\n    tokens.dedup_by(|a, b| a.token_type == b.token_type);\n    Ok(parse(tokens))")], ["C29"]),
    ("b-retain", [(LIB, GLUE, "    let mut tokens = tokenize(code)?;\n    tokens.retain(|t| !matches!(t.token_type, lexer::TokenType::Ellipsis));\n    Ok(parse(tokens))")], ["C29"]),
    ("b-pop", [(LIB, GLUE, "    let mut tokens = tokenize(code)?;\n    if matches!(tokens.last().map(|t| &t.token_type), Some(lexer::TokenType::Symbol(_))) {\n        tokens.pop();\n    }\n    Ok(parse(tokens))")], ["C29"]),
    ("b-unwrap", [(LIB, GLUE, "    let tokens = tokenize(code).unwrap_or_default();\n    Ok(parse(tokens))")], ["C29"]),
    ("b-unwrap2", [(LIB, GLUE, "    let tokens = tokenize(code).unwrap();\n    Ok(parse(tokens))")], ["C29"]),
    ("b-upper", [(LIB, GLUE, "    let tokens = tokenize(code.to_uppercase())?;\n    Ok(parse(tokens))")], ["C29"]),
    ("b-crlf", [(LIB, GLUE, "    let tokens = tokenize(code.replace(\"\\r\\n\", \"\\n\"))?;\n    Ok(parse(tokens))")], ["C29"]),
    ("b-trim", [(LIB, GLUE, "    let tokens = tokenize(code.trim_start().to_string())?;\n    Ok(parse(tokens))")], ["C29"]),
    ("b-empty", [(LIB, GLUE, "    let tokens = tokenize(code)?;\n    if tokens.len() < 2 {\n        return Ok(Default::default());\n    }\n    Ok(parse(tokens))")], ["C29"]),
    ("b-take", [(LIB, GLUE, "    let tokens = tokenize(code)?;\n    Ok(parse(tokens.into_iter().skip_while(|t| matches!(t.token_type, lexer::TokenType::Comma)).collect()))")], ["C29"]),
    ("n-match", [(LIB, GLUE, "    match tokenize(code) {\n        Ok(tokens) => Ok(parse(tokens)),\n        Err(error) => Err(error),\n    }")], []),
    ("n-map", [(LIB, GLUE, "    tokenize(code).map(parse)")], []),
    ("n-map2", [(LIB, GLUE, "    tokenize(code).and_then(|tokens| Ok(parse(tokens)))")], []),
    ("n-comments", [(LIB, GLUE, "    let tokens: Vec<_> = tokenize(code)?.into_iter().filter(|t| !matches!(t.token_type, lexer::TokenType::CommentSingleLine(_) | lexer::TokenType::CommentMultiLine(_))).collect();\n    Ok(parse(tokens))")], []),
    ("n-retain", [(LIB, GLUE, "    let mut tokens = tokenize(code)?;\n    tokens.retain(|t| !matches!(t.token_type, lexer::TokenType::CommentSingleLine(_)));\n    Ok(parse(tokens))")], []),
    ("n-emptytext", [(LIB, GLUE, "    if code.is_empty() {\n        return Ok(Default::default());\n    }\n" + GLUE)], []),
    ("n-emptytok", [(LIB, GLUE, "    let tokens = tokenize(code)?;\n    if tokens.is_empty() {\n        return Ok(Default::default());\n    }\n    Ok(parse(tokens))")], []),
    ("n-clone", [(LIB, GLUE, "    let tokens = tokenize(code.clone())?;\n    let tokens = tokens.to_vec();\n    Ok(parse(tokens))")], []),
    ("n-copy", [(LIB, GLUE, "    let tokens = tokenize(code)?;\n    let mut all = Vec::with_capacity(tokens.len());\n    for token in tokens {\n        all.push(token);\n    }\n    Ok(parse(all))")], []),
    ("n-helper", [(LIB, GLUE, "    run(&code)\n}\n\nfn run(code: &str) -> Result<parser::ASTBlock, TokenError> {\n    let tokens = tokenize(code.to_string())?;\n    Ok(parse(tokens))")], []),
    # ---- tokenizer
    ("b-qm", [(L, "TokenType::QuestionMark", "TokenType::Symbol(\"?\".to_string())")], ["C29"]),
    ("b-slot", [(L, "                TokenType::BukkitSlotAccess,\n", "                TokenType::Symbol(access_str.to_string()),\n")], ["C29"]),
    ("b-kwlen", [(L, "            starts_with_word(code, keyword_str)\n", "            keyword_str.len() < 11 && starts_with_word(code, keyword_str)\n")], ["C29"]),
    ("b-noob", [(L, "TokenType::Value(TokenValue::NOOB),", "TokenType::Identifier(noob_str.to_string()),")], ["C29"]),
    # ---- parser
    ("b-wtf", [(W, "Some(TokenType::QuestionMark) => {}\n", "Some(TokenType::Keyword(Keywords::WTF)) => {}\n")], ["C29"]),
    ("b-orly", [(O, "Some(TokenType::QuestionMark) => {}\n", "Some(TokenType::ExclamationMark) => {}\n")], ["C29"]),
]
