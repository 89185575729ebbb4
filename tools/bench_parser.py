CHECKS = ["C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]
S = "src/parser/statements/"
E = "src/parser/expression/"
EDITS = [
 # ---- bugs
 ("b-visible-twobang", [(S+"visible.rs", "let exclamation_mark = tokens.next_if_token_type_eq(TokenType::ExclamationMark);",
   "let mut exclamation_mark = None;\n while let Some(t) = tokens.next_if_token_type_eq(TokenType::ExclamationMark) { exclamation_mark = Some(t); }")], ["C14", "C21"]),
 ("b-visible-rev", [(S+"visible.rs", "expressions.push_back(ASTExpression::parse(token, tokens)?);",
   "let e = ASTExpression::parse(token, tokens)?; if expressions.len() == 4 { expressions.push_front(e); } else { expressions.push_back(e); }")], ["C14"]),
 ("b-nary-an-mkay", [(E+"nary_operations.rs", "let mkay_token = tokens.next();", "let mkay_token = if expressions.len() > 7 { None } else { tokens.next() };")], ["C19"]),
 ("b-ihasa-type-noob", [(E+"identifier.rs", "TokenType::Keyword(Keywords::BUKKIT) => Ok(ASTType::Bukkit(token)),", "TokenType::Keyword(Keywords::BUKKIT) => Ok(ASTType::Troof(token)),")], ["C20"]),
 ("b-loop-op", [(S+"im_in_yr.rs", ") => LoopOperation::NERFIN(token),", ") => LoopOperation::UPPIN(token),")], ["C16"]),
 ("b-loop-cond-order", [(S+"im_in_yr.rs", "        let on_iteration = parse_iteration_operation(&mut tokens)?;\n        let condition = parse_conditional(&mut tokens)?;",
   "        let pre = parse_conditional(&mut tokens)?;\n let on_iteration = parse_iteration_operation(&mut tokens)?;\n        let condition = match pre { Some(p) => Some(p), None => parse_conditional(&mut tokens)? };")], ["C16"]),
 ("b-block-if-yarly", [("src/parser/blocks.rs", "Keywords::MEBBE | Keywords::NO_WAI | Keywords::YA_RLY | Keywords::OIC,", "Keywords::MEBBE | Keywords::NO_WAI | Keywords::OIC,")], ["C12"]),
 ("b-block-toomany", [("src/parser/blocks.rs", "if !remaining_tokens.is_empty() {\n            let error", "if remaining_tokens.len() > 1 {\n            let error")], ["C12"]),
 ("b-slot-last", [(E+"variable_access.rs", ".pop_back()", ".pop_front()")], ["C21"]),
 ("b-an-optional-both", [(E+"binary_operation.rs", "Keywords::AN", "Keywords::MKAY")], ["C19"]),
 ("b-iiz-mkay-any", [(S+"i_is.rs", "            Some(token) => return Err(ASTErrorType::IIz(IIzError::MissingMkay(token))),\n", "            Some(_) => {}\n")], ["C15"]),
 ("b-how-args-front", [(S+"how_is_i.rs", "arguments.push_back(param)", "arguments.push_front(param)")], ["C15"]),
 ("b-mebbe-token", [(S+"o_rly.rs", "ORlyError::MissingMebbeExpression(mebbe_token)", "ORlyError::MissingMebbeExpression(first_token)")], ["C21"]),
 ("b-wtf-omg-single", [(S+"wtf.rs", "        while let Some(omg_token) =\n            tokens.next_if", "        if let Some(omg_token) =\n            tokens.next_if")], ["C18"]),
 ("b-comment-first-only", [("src/parser/mod.rs", ".filter(|token| {", ".enumerate().filter(|(i, token)| { *i > 3 ||"), ("src/parser/mod.rs", "        })\n        .collect();", "        })\n        .map(|x| x.1).collect();")], ["C22"]),
 ("b-loop-noprogress", [("src/parser/blocks.rs", "        if statement_iterator.peek().is_none() {\n            break;\n        }", "        if statement_iterator.peek().is_none() && block.0.len() > 0 {\n            break;\n        }")], ["C10"]),
 ("b-hai-swallow", [(S+"hai.rs", "version: tokens.by_ref().collect(),", "version: tokens.next_statement(),")], ["C12"]),
 ("b-wtf-unwrap", [(S+"wtf.rs", "                None => return Err(ASTErrorType::MissingToken(omg_token)),\n                Some(token) => token,", "                None => panic!(),\n                Some(token) => token,")], ["C09"]),
 ("b-binary-swap", [(E+"binary_operation.rs", "left: Box::new(left)", "left: Box::new(right)")], ["C19"]),
 ("b-o_rly-nowai-after", [(S+"o_rly.rs", "            Some(YaRly {\n                ya_rly_token,\n                block: parse_block_if(tokens),\n            })", "            Some(YaRly {\n                ya_rly_token,\n                block: crate::parser::blocks::parse_block_switch(tokens),\n            })")], ["C12"]),
 ("b-gimmeh-swallow-err", [(S+"gimmeh.rs", "None => Err(ASTErrorType::MissingToken(first_token))", "None => Err(ASTErrorType::UnexpectedToken(first_token))")], ["C21"]),
 ("b-expr-not-swallow", [(S+"mod.rs", "Some(_) => Err(VariableAssignmentError::MissingR(variable_access.last_token()).into()),", "Some(TokenType::ExclamationMark) => Ok(Node::Expression(ASTExpression::Value(ASTExpressionValue::VariableAccess(variable_access)))), Some(_) => Err(VariableAssignmentError::MissingR(variable_access.last_token()).into()),")], ["C21"]),
 # ---- edits that keep the behaviour
 ("n-visible-loop", [(S+"visible.rs", "while let Some(token) = tokens.next_if_token_type_ne(TokenType::ExclamationMark) {\n            expressions.push_back(ASTExpression::parse(token, tokens)?);\n        }",
   "loop {\n match tokens.next_if(|t| !matches!(t.token_type, TokenType::ExclamationMark)) { None => break, Some(token) => { let e = ASTExpression::parse(token, tokens)?; expressions.push_back(e); } } }")], []),
 ("n-visible-fromfn", [(S+"visible.rs", "        let mut expressions: VecDeque<ASTExpression> = VecDeque::new();\n        while let Some(token) = tokens.next_if_token_type_ne(TokenType::ExclamationMark) {\n            expressions.push_back(ASTExpression::parse(token, tokens)?);\n        }",
   "        let expressions = std::iter::from_fn(|| { let t = tokens.next_if_token_type_ne(TokenType::ExclamationMark)?; Some(ASTExpression::parse(t, tokens)) }).collect::<Result<VecDeque<ASTExpression>, ASTErrorType>>()?;")], []),
 ("n-visible-peekloop", [(S+"visible.rs", "        let mut expressions: VecDeque<ASTExpression> = VecDeque::new();\n        while let Some(token) = tokens.next_if_token_type_ne(TokenType::ExclamationMark) {\n            expressions.push_back(ASTExpression::parse(token, tokens)?);\n        }\n\n        let exclamation_mark = tokens.next_if_token_type_eq(TokenType::ExclamationMark);\n",
   "        let mut expressions: Vec<ASTExpression> = Vec::with_capacity(4);\n let mut exclamation_mark = None;\n        while let Some(token) = tokens.next() {\n if token.token_type == TokenType::ExclamationMark { exclamation_mark = Some(token); break; }\n           expressions.push(ASTExpression::parse(token, tokens)?);\n        }\n let expressions = VecDeque::from(expressions);\n")], []),
 ("n-gimmeh-okor", [(S+"gimmeh.rs", "match tokens.next() {\n            Some(token) => Ok(Gimmeh {\n                variable_access: VariableAccess::parse(token, tokens)?,\n                gimmeh_token: first_token,\n            }),\n            None => Err(ASTErrorType::MissingToken(first_token)),\n        }",
   "let token = match tokens.next() { Some(t) => t, None => return Err(ASTErrorType::MissingToken(first_token)) };\n VariableAccess::parse(token, tokens).map(|variable_access| Gimmeh { variable_access, gimmeh_token: first_token })")], []),
 ("n-found-okor", [(S+"found_yr.rs", "        let next_token = match tokens.next() {\n            Some(token) => token,\n            None => return Err(ASTErrorType::MissingToken(first_token)),\n        };\n",
   "        let next_token = tokens.next().ok_or_else(|| ASTErrorType::MissingToken(first_token.clone()))?;\n")], []),
 ("n-ihasa-helper", [(S+"i_has_a.rs", "        let initial_value = match tokens.next() {\n            Some(token) => {\n                let val = ASTType::try_from(token).map(|t| IHasAInitialValue::Type(t));\n                match val {\n                    Ok(val) => val,\n                    Err(token) => {\n                        IHasAInitialValue::Expression(ASTExpression::parse(token, tokens)?)\n                    }\n                }\n            }\n            None => return Err(IHasAError::ExpectedInitialValue(assignment_token).into()),\n        };\n",
   "        let initial_value = Self::initial(assignment_token, tokens)?;\n"),
   (S+"i_has_a.rs", "impl IHasA {\n", "impl IHasA {\n fn initial(itz: Token, tokens: &mut StatementIterator) -> Result<IHasAInitialValue, ASTErrorType> { let Some(token) = tokens.next() else { return Err(IHasAError::ExpectedInitialValue(itz).into()); }; ASTType::try_from(token).map(IHasAInitialValue::Type).or_else(|token| ASTExpression::parse(token, tokens).map(IHasAInitialValue::Expression)) }\n")], []),
 ("n-orly-helper", [(S+"o_rly.rs", "        match tokens.next() {\n            None => return Err(ASTErrorType::MissingBlockClosingToken(first_token)),\n            Some(Token {\n                token_type: TokenType::Keyword(Keywords::OIC),\n                ..\n            }) => {}\n            Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),\n        }\n",
   "        let close = tokens.next(); if close.is_none() { return Err(ASTErrorType::MissingBlockClosingToken(first_token)); } let close = close.unwrap(); if close.token_type != TokenType::Keyword(Keywords::OIC) { return Err(ASTErrorType::UnexpectedToken(close)); }\n")], []),
 ("n-orly-generic", [(S+"o_rly.rs", "        let if_true = if let Some(ya_rly_token) =\n            tokens.next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::YA_RLY)))\n        {\n            tokens.next_statement_should_be_empty()?;\n            Some(YaRly {\n                ya_rly_token,\n                block: parse_block_if(tokens),\n            })\n        } else {\n            None\n        };\n",
   "        let if_true = branch(tokens, Keywords::YA_RLY)?.map(|(ya_rly_token, block)| YaRly { ya_rly_token, block });\n"),
   (S+"o_rly.rs", "        let if_false = if let Some(no_wai_token) =\n            tokens.next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::NO_WAI)))\n        {\n            tokens.next_statement_should_be_empty()?;\n            Some(NoWai {\n                no_wai_token,\n                block: parse_block_if(tokens),\n            })\n        } else {\n            None\n        };\n",
   "        let if_false = branch(tokens, Keywords::NO_WAI)?.map(|(no_wai_token, block)| NoWai { no_wai_token, block });\n"),
   (S+"o_rly.rs", "impl ORly {\n", "fn branch(tokens: &mut StatementIterator, keyword: Keywords) -> Result<Option<(Token, ASTBlock)>, ASTErrorType> { match tokens.next_if_token_type_eq(TokenType::Keyword(keyword)) { None => Ok(None), Some(t) => { tokens.next_statement_should_be_empty()?; Ok(Some((t, parse_block_if(tokens)))) } } }\nimpl ORly {\n")], []),
 ("n-block-rewrite", [("src/parser/blocks.rs", "    loop {\n        match statement_iterator.peek() {\n            Some(token) if should_stop_at_token(token) => break,\n            _ => {}\n        }\n\n        match statement_iterator.next() {\n            Some(token) => block.0.push_back(\n                parse_statement(token, statement_iterator).unwrap_or_else(|err| err.into()),\n            ),\n            None => {}\n        };\n",
   "    loop {\n        if let Some(token) = statement_iterator.peek() { if should_stop_at_token(token) { return block; } }\n\n        if let Some(token) = statement_iterator.next() {\n let node = match parse_statement(token, statement_iterator) { Ok(n) => n, Err(e) => Node::ASTError(e) }; block.0.push_back(node);\n        }\n")], []),
 ("n-block-keywords", [("src/parser/blocks.rs", "    parse_block(statement_iterator, &|token| match token.token_type {\n        TokenType::Keyword(Keywords::OMG | Keywords::OMGWTF | Keywords::OIC) => true,\n        _ => false,\n    })",
   "    const STOP: [Keywords; 3] = [Keywords::OIC, Keywords::OMGWTF, Keywords::OMG];\n    parse_block(statement_iterator, &|token| match &token.token_type { TokenType::Keyword(k) => STOP.contains(k), _ => false })")], []),
 ("n-block-iterany", [("src/parser/blocks.rs", "    parse_block(statement_iterator, &|token| match token.token_type {\n        TokenType::Keyword(Keywords::OMG | Keywords::OMGWTF | Keywords::OIC) => true,\n        _ => false,\n    })",
   "    parse_block(statement_iterator, &|token| [Keywords::OIC, Keywords::OMGWTF, Keywords::OMG].iter().any(|k| token.token_type == TokenType::Keyword(k.clone())))")], []),
 ("n-block-generic", [("src/parser/blocks.rs", "fn parse_block(\n    statement_iterator: &mut StatementIterator,\n    should_stop_at_token: &dyn Fn(&Token) -> bool,\n)", "fn parse_block<F: Fn(&Token) -> bool>(\n    statement_iterator: &mut StatementIterator,\n    should_stop_at_token: &F,\n)")], []),
 ("n-access-recursive", [(E+"variable_access.rs", "        let mut accesses = VecDeque::new();\n        while let Some(slot_access_token) =\n            tokens.next_if(|t| matches!(t.token_type, TokenType::BukkitSlotAccess))\n        {\n            match tokens.next() {\n                Some(token) => accesses.push_back(VariableAccessSlot {\n                    slot_access_token,\n                    identifier: Identifier::parse(token, tokens)?,\n                }),\n                None => return Err(ASTErrorType::MissingToken(slot_access_token)),\n            }\n        }\n",
   "        let mut accesses = VecDeque::new();\n        while let Some(slot) = Self::slot(tokens)? { accesses.push_back(slot); }\n"),
   (E+"variable_access.rs", "impl VariableAccess {\n", "impl VariableAccess {\n fn slot(tokens: &mut StatementIterator) -> Result<Option<VariableAccessSlot>, ASTErrorType> { let Some(slot_access_token) = tokens.next_if_token_type_eq(TokenType::BukkitSlotAccess) else { return Ok(None) }; match tokens.next() { None => Err(ASTErrorType::MissingToken(slot_access_token)), Some(token) => { let identifier = Identifier::parse(token, tokens)?; Ok(Some(VariableAccessSlot { slot_access_token, identifier })) } } }\n")], []),
 ("n-how-loop", [(S+"how_is_i.rs", "            if !matches!(\n                tokens.peek().map(|t| &t.token_type),\n                Some(TokenType::Keyword(Keywords::AN))\n            ) {\n                break;\n            }\n            tokens.next();\n",
   "            if tokens.next_if_token_type_eq(TokenType::Keyword(Keywords::AN)).is_none() { break; }\n")], []),
 ("n-iiz-flag", [(S+"i_is.rs", "        let mut arguments = VecDeque::new();\n        loop {\n            let yr_token = match tokens\n                .next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::YR)))\n            {\n                Some(token) => token,\n                None => break,\n            };\n",
   "        let mut arguments = VecDeque::new();\n        let mut more = true;\n        while more {\n            let yr_token = match tokens\n                .next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::YR)))\n            {\n                Some(token) => token,\n                None => break,\n            };\n"),
   (S+"i_is.rs", "            if tokens\n                .next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::AN)))\n                .is_none()\n            {\n                break;\n            }\n", "            more = tokens.next_if(|token| matches!(token.token_type, TokenType::Keyword(Keywords::AN))).is_some();\n")], []),
 ("n-comments-for", [("src/parser/mod.rs", "    let tokens = tokens\n        .into_iter()\n        .filter(|token| {\n            !matches!(\n                token.token_type,\n                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)\n            )\n        })\n        .collect();\n",
   "    let mut code = Vec::with_capacity(tokens.len());\n for token in tokens { match token.token_type { TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_) => continue, _ => code.push(token) } }\n let tokens = code;\n")], []),
 ("n-comments-retain", [("src/parser/mod.rs", "    let tokens = tokens\n        .into_iter()\n        .filter(|token| {\n            !matches!(\n                token.token_type,\n                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)\n            )\n        })\n        .collect();\n",
   "    let mut tokens = tokens; tokens.retain(|t| !matches!(t.token_type, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)));\n")], []),
 ("n-stmt-match", [(S+"mod.rs", "    if VariableAccess::is_valid(&first_token) {\n        let variable_access = VariableAccess::parse(first_token, tokens)?;\n        return match tokens.peek().map(|t| &t.token_type) {\n            None => Ok(Node::Expression(ASTExpression::Value(\n                ASTExpressionValue::VariableAccess(variable_access),\n            ))),\n            Some(TokenType::Keyword(Keywords::R)) => {",
   "    if VariableAccess::is_valid(&first_token) {\n        let variable_access = VariableAccess::parse(first_token, tokens)?;\n        let kind = tokens.peek().map(|t| t.token_type.clone());\n        return match kind {\n            None => Ok(ASTExpression::Value(variable_access.into()).into()),\n            Some(TokenType::Keyword(Keywords::R)) => {")], []),
 ("n-expr-table", [(E+"mod.rs", "                    Keywords::SUM_OF => {\n                        BinaryOperation::parse(BinaryOpt::SumOf(first_token), tokens)\n                    }\n                    Keywords::DIFF_OF => {\n                        BinaryOperation::parse(BinaryOpt::DiffOf(first_token), tokens)\n                    }\n",
   "                    Keywords::SUM_OF | Keywords::DIFF_OF => { let make: fn(crate::lexer::Token) -> BinaryOpt = if *keyword == Keywords::SUM_OF { BinaryOpt::SumOf } else { BinaryOpt::DiffOf };\n                        BinaryOperation::parse(make(first_token), tokens)\n                    }\n")], []),
 ("n-question-helper", [(S+"wtf.rs", "        match tokens.next().map(|t| t.token_type) {\n            Some(TokenType::QuestionMark) => {}\n            Some(TokenType::Symbol(symbol)) if symbol == \"?\" => {}\n            _ => return Err(ORlyError::MissingQuestionMark(first_token).into()),\n        };\n",
   "        let ok = tokens.next().map_or(false, |t| match &t.token_type { TokenType::QuestionMark => true, TokenType::Symbol(s) => s.as_str() == \"?\", _ => false });\n        if !ok { return Err(ASTErrorType::ORly(ORlyError::MissingQuestionMark(first_token))); }\n")], []),
 ("n-expect-helper", [(S+"how_is_i.rs", "        match tokens.next() {\n            None => return Err(ASTErrorType::MissingBlockClosingToken(first_token)),\n            Some(Token {\n                token_type: TokenType::Keyword(Keywords::IF_U_SAY_SO),\n                ..\n            }) => {}\n            Some(token) => return Err(ASTErrorType::UnexpectedToken(token)),\n        }\n",
   "        tokens.expect(Keywords::IF_U_SAY_SO, &first_token)?;\n"),
   ("src/parser/statement_iterator.rs", "    pub fn next_if_token_type_eq(", "    pub fn expect(&mut self, k: crate::lexer::Keywords, opener: &Token) -> Result<Token, ASTErrorType> { match self.next() { None => Err(ASTErrorType::MissingBlockClosingToken(opener.clone())), Some(t) if t.token_type == TokenType::Keyword(k) => Ok(t), Some(t) => Err(ASTErrorType::UnexpectedToken(t)) } }\n\n    pub fn next_if_token_type_eq(")], []),
 ("n-last-token", [(E+"variable_access.rs", "    pub(crate) fn last_token(mut self) -> Token {\n        self.accesses\n            .pop_back()\n            .map(|VariableAccessSlot { identifier, .. }| identifier.name)\n            .unwrap_or_else(|| self.identifier.name)\n    }", "    pub(crate) fn last_token(self) -> Token {\n        match self.accesses.back() { Some(slot) => slot.identifier.name.clone(), None => self.identifier.name.clone() }\n    }")], []),
 ("n-last-token2", [(E+"variable_access.rs", "    pub(crate) fn last_token(mut self) -> Token {\n        self.accesses\n            .pop_back()\n            .map(|VariableAccessSlot { identifier, .. }| identifier.name)\n            .unwrap_or_else(|| self.identifier.name)\n    }", "    pub(crate) fn last_token(self) -> Token {\n        self.accesses.into_iter().last().map(|s| s.identifier).unwrap_or(self.identifier).name\n    }")], []),
 ("n-hai-loop", [(S+"hai.rs", "        Ok(Hai {\n            hai_token: first_token,\n            version: tokens.by_ref().collect(),\n        })", "        let mut version = VecDeque::new();\n while let Some(t) = tokens.next() { version.push_back(t); }\n        Ok(Hai {\n            hai_token: first_token,\n            version,\n        })")], []),
 ("n-hai-extend", [(S+"hai.rs", "        Ok(Hai {\n            hai_token: first_token,\n            version: tokens.by_ref().collect(),\n        })", "        let mut version = VecDeque::new();\n version.extend(tokens);\n        Ok(Hai {\n            hai_token: first_token,\n            version,\n        })")], []),
]
EDITS += [
 ("b-loop-count", [(S+"i_is.rs", "        loop {\n            let yr_token", "        let mut n = 0;\n        loop {\n            n += 1;\n            if n > 9 { break; }\n            let yr_token")], ["C15"]),
]
