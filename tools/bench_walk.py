"""Edits for C23, C24, C25."""
CHECKS = ["C23", "C24", "C25"]
E = "src/parser/expression/"
ID, II, VA, VI, NA, BI, UN, EX, AS, BL = (E + "identifier.rs", E + "identifier_iterator.rs", E + "variable_access.rs", E + "variable_access_iterator.rs",
                                          E + "nary_operations.rs", E + "binary_operation.rs", E + "unary_operation.rs", E + "mod.rs", "src/parser/statements/assignment.rs", "src/parser/blocks.rs")

SLOT_NEXT = """        match self.state {
            VariableAccessSlotIteratorState::Slot => {
                self.state = VariableAccessSlotIteratorState::Identifier(
                    self.access_lot.identifier.tokens(),
                );
                Some(&self.access_lot.slot_access_token)
            }
            VariableAccessSlotIteratorState::Identifier(ref mut iter) => {
                iter.next().or_else(|| {
                    self.state = VariableAccessSlotIteratorState::End;
                    None
                })
            }
            VariableAccessSlotIteratorState::End => None,
        }"""
ID_TOKS = """    pub fn tokens(&self) -> IdentifierTokensIterator {
        IdentifierTokensIterator::new(self)
    }"""
VA_TOKS = """    pub fn tokens(&self) -> VariableAccessIterator {
        VariableAccessIterator::new(self)
    }"""
NARY_TOKS = """    pub fn tokens<'a>(&'a self) -> NaryOperationIterator<'a> {
        NaryOperationIterator::new(self)
    }"""
BIN_TOKS = """    pub fn tokens<'a>(&'a self) -> BinaryOperationIterator<'a> {
        BinaryOperationIterator::new(self)
    }"""
NARY_RANGE = """                mkay_token
                    .as_ref()
                    .map(|t| &t.range.1)
                    .or_else(|| {
                        expressions
                            .last()
                            .map(|NaryOperationOperand { an_token, .. }| {
                                an_token.as_ref().map(|t| &t.range.1)
                            })
                            .flatten()
                    })
                    .or_else(|| {
                        expressions.last().map(
                            |NaryOperationOperand {
                                 operand: expression,
                                 ..
                             }| expression.range().1,
                        )
                    })
                    .unwrap_or_else(|| &operator.token().range.1),"""
VA_RANGE = """        let identifier_range = self.identifier.range();
        let mut last_position = identifier_range.1;
        match self.accesses.back() {
            Some(VariableAccessSlot { identifier, .. }) => last_position = identifier.range().1,
            None => {}
        };
        (identifier_range.0, last_position)"""
ID_NEXT = open("/repo/" + II).read().split("fn next(&mut self) -> Option<Self::Item> {\n")[1].split("\n    }\n}\n")[0]
ACC = """                    None => match self.variable_access.accesses.get(index) {
                        Some(access_slot) => {
                            self.state = VariableAccessTokenIteratorState::Access((
                                index + 1,"""
NEXTB = """        while let Some(node) = self.pending.pop() {
            if let Node::ASTError(error) = node {
                return Some(error);
            }
            for block in node.get_inner_block().into_iter().flatten().rev() {
                self.pending.extend(block.0.iter().rev());
            }
        }

        None"""
ITERR = """    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
        ASTBlockErrorIterator::new(self)
    }"""
GIB = open("/repo/" + BL).read().split("    pub(crate) fn get_inner_block(&self) -> Option<Vec<&ASTBlock>> {\n")[1].split("\n    }\n}\n")[0]

EDITS = [
    # ---- tokens
    ("b-id-nosrs", [(II, ID_NEXT, ID_NEXT.replace("self.state = IdentifierTokensIteratorState::HasUsedSrs;", "self.state = IdentifierTokensIteratorState::Done;"))], ["C23"]),
    ("b-id-order", [(II, ID_NEXT, ID_NEXT.replace("Some(&srs)", "Some(&self.identifier.name)"))], ["C23"]),
    ("b-id-loop", [(II, ID_NEXT, ID_NEXT.replace("""                self.state = IdentifierTokensIteratorState::Done;
                Some(&self.identifier.name)
            }
            Identifier""", """                Some(&self.identifier.name)
            }
            Identifier"""))], ["C23"]),
    ("b-slot", [(VI, SLOT_NEXT, SLOT_NEXT.replace("Some(&self.access_lot.slot_access_token)", "self.next()"))], ["C23"]),
    ("b-slot-notfused", [(VI, SLOT_NEXT, SLOT_NEXT.replace("self.state = VariableAccessSlotIteratorState::End;", "self.state = VariableAccessSlotIteratorState::Slot;"))], ["C23"]),
    ("b-acc-skip", [(VI, ACC, ACC.replace("index + 1", "index + 2"))], ["C23"]),
    ("b-acc-last", [(VI, ACC, ACC.replace("accesses.get(index) {", "accesses.get(index).filter(|_| index + 1 < 8) {"))], ["C23"]),
    ("b-acc-start1", [(VI, "VariableAccessTokenIteratorState::Access((0, None));", "VariableAccessTokenIteratorState::Access((1, None));")], ["C23"]),
    ("b-acc-back", [(VI, ACC, ACC.replace("accesses.get(index) {", "accesses.get(if index == 0 { index } else { self.variable_access.accesses.len() - index }) {"))], ["C23"]),
    ("b-nary-noan", [(NA, "self.expression.an_token.as_ref()", "None")], ["C23"]),
    ("b-nary-nomkay", [(NA, "self.operation.mkay_token.as_ref()\n", "None\n")], ["C23"]),
    ("b-nary-mkayloop", [(NA, "self.state = NaryOperationIteratorState::End;", "self.state = NaryOperationIteratorState::Mkay;")], ["C23"]),
    ("b-nary-an-end", [(NA, "self.expression.an_token.as_ref()", "self.expression.an_token.as_ref().filter(|t| t.range.0.line > 0)")], ["C23"]),
    ("b-bin-noan", [(BI, "self.operation.an_token.as_ref().or_else(|| self.next())", "self.next()")], ["C23"]),
    ("b-bin-anstop", [(BI, "self.operation.an_token.as_ref().or_else(|| self.next())", "self.operation.an_token.as_ref()")], ["C23"]),
    ("b-bin-swap", [(BI, "Left(self.operation.left.tokens())", "Left(self.operation.right.tokens())"), (BI, "Right(self.operation.right.tokens())", "Right(self.operation.left.tokens())")], ["C23"]),
    ("b-bin-again", [(BI, "self.state = BinaryOperationIteratorState::End;\n                    self.next()", "self.state = BinaryOperationIteratorState::Start;\n                    None")], ["C23"]),
    ("b-un", [(UN, "                Some(self.operation.operator.token())\n", "                self.next()\n")], ["C23"]),
    ("b-val-lit", [(EX, "                    self.state = ASTExpressionValueState::End;\n                    Some(token)", "                    Some(token)")], ["C23"]),
    ("b-asg-r", [(AS, "                Some(&self.variable_assignment.r_token)", "                self.next()")], ["C23"]),
    ("b-asg-order", [(AS, "                self.state = VariableAssignmentIteratorState::VariableAccess(\n                    self.variable_assignment.variable_access.tokens(),\n                );\n                self.next()", "                self.state = VariableAssignmentIteratorState::VariableAccess(\n                    self.variable_assignment.variable_access.tokens(),\n                );\n                Some(&self.variable_assignment.r_token)")], ["C23"]),
    ("b-oper-token", [(BI, "BinaryOpt::QuoshuntOf(token) =>", "BinaryOpt::QuoshuntOf(token) if token.range.0.line < 1000 =>")], ["BUILD"]),
    # neutral: tokens
    ("n-id-chain", [(II, ID_NEXT, """        loop {
            let (token, next) = match self.state {
                IdentifierTokensIteratorState::Start => (self.identifier.srs.as_ref(), IdentifierTokensIteratorState::HasUsedSrs),
                IdentifierTokensIteratorState::HasUsedSrs => (Some(&self.identifier.name), IdentifierTokensIteratorState::Done),
                IdentifierTokensIteratorState::Done => return None,
            };
            self.state = next;
            if token.is_some() {
                return token;
            }
        }""")], []),
    ("n-id-std", [(ID, ID_TOKS, """    pub fn tokens(&self) -> impl Iterator<Item = &Token> + '_ {
        self.srs.iter().chain(std::iter::once(&self.name))
    }"""), (VI, "Identifier(IdentifierTokensIterator<'a>),", "Identifier(Box<dyn Iterator<Item = &'a Token> + 'a>),"), (VI, "self.access_lot.identifier.tokens(),\n", "Box::new(self.access_lot.identifier.tokens()),\n"),
      (VI, "Identifier(IdentifierTokensIterator<'a>),\n    Access", "Identifier(Box<dyn Iterator<Item = &'a Token> + 'a>),\n    Access"), (VI, "Identifier(ident_tokens);", "Identifier(Box::new(ident_tokens));")], []),
    ("n-va-std", [(VA, VA_TOKS, """    pub fn tokens(&self) -> Box<dyn Iterator<Item = &Token> + '_> {
        Box::new(self.identifier.tokens().chain(self.accesses.iter().flat_map(|a| a.tokens())))
    }"""), (EX, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(Box<dyn Iterator<Item = &'a Token> + 'a>),"), (AS, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(Box<dyn Iterator<Item = &'a Token> + 'a>),")], []),
    ("b-va-std", [(VA, VA_TOKS, """    pub fn tokens(&self) -> Box<dyn Iterator<Item = &Token> + '_> {
        Box::new(self.identifier.tokens().chain(self.accesses.iter().rev().flat_map(|a| a.tokens())))
    }"""), (EX, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(Box<dyn Iterator<Item = &'a Token> + 'a>),"), (AS, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(Box<dyn Iterator<Item = &'a Token> + 'a>),")], ["C23"]),
    ("n-va-vec", [(VA, VA_TOKS, """    pub fn tokens(&self) -> std::vec::IntoIter<&Token> {
        let mut v: Vec<&Token> = self.identifier.tokens().collect();
        for access in &self.accesses {
            v.extend(access.tokens());
        }
        v.into_iter()
    }"""), (EX, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(std::vec::IntoIter<&'a Token>),"), (AS, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(std::vec::IntoIter<&'a Token>),")], []),
    ("b-va-vec", [(VA, VA_TOKS, """    pub fn tokens(&self) -> std::vec::IntoIter<&Token> {
        let mut v: Vec<&Token> = self.identifier.tokens().collect();
        for access in self.accesses.iter().take(2) {
            v.extend(access.tokens());
        }
        v.into_iter()
    }"""), (EX, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(std::vec::IntoIter<&'a Token>),"), (AS, "VariableAccess(VariableAccessIterator<'a>),", "VariableAccess(std::vec::IntoIter<&'a Token>),")], ["C23"]),
    ("n-slot-match", [(VI, SLOT_NEXT, SLOT_NEXT.replace("""iter.next().or_else(|| {
                    self.state = VariableAccessSlotIteratorState::End;
                    None
                })""", """let token = iter.next();
                if token.is_none() {
                    self.state = VariableAccessSlotIteratorState::End;
                }
                token"""))], []),
    ("n-slot-replace", [(VI, SLOT_NEXT, """        match std::mem::replace(&mut self.state, VariableAccessSlotIteratorState::End) {
            VariableAccessSlotIteratorState::Slot => {
                self.state = VariableAccessSlotIteratorState::Identifier(self.access_lot.identifier.tokens());
                Some(&self.access_lot.slot_access_token)
            }
            VariableAccessSlotIteratorState::Identifier(mut iter) => {
                let token = iter.next()?;
                self.state = VariableAccessSlotIteratorState::Identifier(iter);
                Some(token)
            }
            VariableAccessSlotIteratorState::End => None,
        }""")], []),
    ("n-nary-loop", [(NA, """                .as_mut()
                .and_then(|iter| iter.next())
                .or_else(|| match""", """                .as_mut()
                .map(|iter| iter.next())
                .flatten()
                .or_else(|| match""")], []),
    ("n-bin-std", [(BI, BIN_TOKS, """    pub fn tokens<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Token> + 'a> {
        Box::new(
            std::iter::once(self.operator.token())
                .chain(self.left.tokens())
                .chain(self.an_token.iter())
                .chain(self.right.tokens()),
        )
    }"""), (EX, "Binary(Box<BinaryOperationIterator<'a>>),", "Binary(Box<dyn Iterator<Item = &'a Token> + 'a>),"), (EX, "Binary(Box::new(opt.tokens()));", "Binary(opt.tokens());")], []),
    ("n-nary-std", [(NA, NARY_TOKS, """    pub fn tokens<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Token> + 'a> {
        Box::new(
            Some(self.operator.token())
                .into_iter()
                .chain(self.expressions.iter().flat_map(|o| o.tokens()))
                .chain(self.mkay_token.as_ref()),
        )
    }"""), (EX, "Nary(Box<NaryOperationIterator<'a>>),", "Nary(Box<dyn Iterator<Item = &'a Token> + 'a>),"), (EX, "Nary(Box::new(opt.tokens()));", "Nary(opt.tokens());")], []),
    ("b-nary-std", [(NA, NARY_TOKS, """    pub fn tokens<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Token> + 'a> {
        Box::new(
            Some(self.operator.token())
                .into_iter()
                .chain(self.expressions.iter().flat_map(|o| o.operand.tokens()))
                .chain(self.mkay_token.as_ref()),
        )
    }"""), (EX, "Nary(Box<NaryOperationIterator<'a>>),", "Nary(Box<dyn Iterator<Item = &'a Token> + 'a>),"), (EX, "Nary(Box::new(opt.tokens()));", "Nary(opt.tokens());")], ["C23"]),
    ("n-expr-helper", [(EX, """            ASTExpressionIteratorState::Value(ref mut iter) => iter.next().or_else(|| {
                self.state = ASTExpressionIteratorState::End;
                None
            }),""", """            ASTExpressionIteratorState::Value(ref mut iter) => match iter.next() {
                None => { self.state = ASTExpressionIteratorState::End; None }
                some => some,
            },""")], []),
    ("n-expr-dyn", [(EX, """            ASTExpressionIteratorState::Value(ref mut iter) => iter.next().or_else(|| {
                self.state = ASTExpressionIteratorState::End;
                None
            }),
            ASTExpressionIteratorState::Binary(ref mut iter) => iter.next().or_else(|| {
                self.state = ASTExpressionIteratorState::End;
                None
            }),
            ASTExpressionIteratorState::Unary(ref mut iter) => iter.next().or_else(|| {
                self.state = ASTExpressionIteratorState::End;
                None
            }),
            ASTExpressionIteratorState::Nary(ref mut iter) => iter.next().or_else(|| {
                self.state = ASTExpressionIteratorState::End;
                None
            }),
            ASTExpressionIteratorState::End => None,""", """            ASTExpressionIteratorState::End => None,
            _ => {
                let iter: &mut dyn Iterator<Item = &'a Token> = match self.state {
                    ASTExpressionIteratorState::Value(ref mut iter) => iter,
                    ASTExpressionIteratorState::Binary(ref mut iter) => iter.as_mut(),
                    ASTExpressionIteratorState::Unary(ref mut iter) => iter.as_mut(),
                    ASTExpressionIteratorState::Nary(ref mut iter) => iter.as_mut(),
                    _ => unreachable!(),
                };
                let token = iter.next();
                if token.is_none() {
                    self.state = ASTExpressionIteratorState::End;
                }
                token
            }""")], []),
    # ---- range
    ("b-r-id", [(ID, "                Some(ref srs) => &srs.range.0,\n                None => &self.name.range.0,", "                Some(ref srs) if srs.range.0.line == 0 => &srs.range.0,\n                _ => &self.name.range.0,")], ["C24"]),
    ("b-r-idend", [(ID, "            &self.name.range.1,\n        )\n    }", "            match self.srs { Some(ref srs) => &srs.range.1, None => &self.name.range.1 },\n        )\n    }")], ["C24"]),
    ("b-r-front", [(VA, VA_RANGE, VA_RANGE.replace("accesses.back()", "accesses.front()"))], ["C24"]),
    ("b-r-slottok", [(VA, VA_RANGE, VA_RANGE.replace("Some(VariableAccessSlot { identifier, .. }) => last_position = identifier.range().1", "Some(VariableAccessSlot { slot_access_token, .. }) => last_position = &slot_access_token.range.1"))], ["C24"]),
    ("b-r-last-start", [(VA, VA_RANGE, VA_RANGE.replace("last_position = identifier.range().1", "last_position = identifier.range().0"))], ["C24"]),
    ("b-r-get1", [(VA, VA_RANGE, VA_RANGE.replace("accesses.back()", "accesses.get(self.accesses.len().saturating_sub(1).min(2))"))], ["C24"]),
    ("b-r-mkay", [(EX, NARY_RANGE, NARY_RANGE.replace("mkay_token\n                    .as_ref()\n                    .map(|t| &t.range.1)", "mkay_token\n                    .as_ref()\n                    .map(|t| &t.range.0)"))], ["C24"]),
    ("b-r-an", [(EX, NARY_RANGE, NARY_RANGE.replace("an_token.as_ref().map(|t| &t.range.1)", "an_token.as_ref().map(|t| &t.range.1).filter(|p| p.line > 0)"))], ["C24"]),
    ("b-r-firstop", [(EX, NARY_RANGE, NARY_RANGE.replace("expressions.last().map(\n", "expressions.first().map(\n"))], ["C24"]),
    ("b-r-bin", [(EX, "&right.range().1)", "&right.range().0)")], ["C24"]),
    ("b-r-asg", [(AS, "(self.variable_access.range().0, self.expression.range().1)", "(self.variable_access.range().0, &self.r_token.range.1)")], ["C24"]),
    ("b-r-asg2", [(AS, "(self.variable_access.range().0, self.expression.range().1)", "(self.expression.range().0, self.expression.range().1)")], ["C24"]),
    ("n-r-id", [(ID, "            match self.srs {\n                Some(ref srs) => &srs.range.0,\n                None => &self.name.range.0,\n            },", "            &self.srs.as_ref().unwrap_or(&self.name).range.0,")], []),
    ("n-r-tokens", [(VA, VA_RANGE, "        let first = self.tokens().next().unwrap();\n        let last = self.tokens().last().unwrap();\n        (&first.range.0, &last.range.1)")], []),
    ("n-r-va", [(VA, VA_RANGE, "        let last = self.accesses.back().map_or(&self.identifier, |s| &s.identifier);\n        (self.identifier.range().0, last.range().1)")], []),
    ("n-r-va2", [(VA, VA_RANGE, "        let last = self.accesses.iter().last().map(|s| s.identifier.range().1);\n        (self.identifier.range().0, last.unwrap_or_else(|| self.identifier.range().1))")], []),
    ("n-r-va3", [(VA, VA_RANGE, "        let (start, mut end) = self.identifier.range();\n        for slot in self.accesses.iter() {\n            end = slot.identifier.range().1;\n        }\n        (start, end)")], []),
    ("n-r-va4", [(VA, VA_RANGE, "        let (start, end) = self.identifier.range();\n        let end = if self.accesses.is_empty() { end } else { self.accesses[self.accesses.len() - 1].identifier.range().1 };\n        (start, end)")], []),
    ("n-r-nary", [(EX, NARY_RANGE, """                match (mkay_token, expressions.last()) {
                    (Some(t), _) => &t.range.1,
                    (None, Some(NaryOperationOperand { an_token: Some(t), .. })) => &t.range.1,
                    (None, Some(op)) => op.operand.range().1,
                    (None, None) => &operator.token().range.1,
                },""")], []),
    ("n-r-narytok", [(EX, "            ASTExpression::NaryOperation(NaryOperation {\n                operator,\n                expressions,\n                mkay_token,\n            }) => (\n                &operator.token().range.0,\n" + NARY_RANGE + "\n            ),", """            ASTExpression::NaryOperation(op) => {
                let last = op.tokens().last().map(|t| &t.range.1);
                (&op.operator.token().range.0, last.unwrap_or(&op.operator.token().range.1))
            }""")], []),
    # ---- errors
    ("b-e-omgwtf", [(BL, GIB, GIB.replace("                omg_wtf\n                    .as_ref()\n                    .map(|WtfOmgWtf { block, .. }| vec.push(block));\n", "                let _ = omg_wtf;\n"))], ["C25"]),
    ("b-e-false", [(BL, GIB, GIB.replace("                if_false.as_ref().map(|NoWai { block, .. }| vec.push(block));\n", "                let _ = if_false;\n"))], ["C25"]),
    ("b-e-order", [(BL, GIB, GIB.replace("                if_true.as_ref().map(|YaRly { block, .. }| vec.push(block));\n", "").replace("                if_false.as_ref()", "                if_true.as_ref().map(|YaRly { block, .. }| vec.push(block));\n                if_false.as_ref()"))], ["C25"]),
    ("b-e-norev", [(BL, NEXTB, NEXTB.replace(".flatten().rev() {", ".flatten() {"))], ["C25"]),
    ("b-e-norev2", [(BL, NEXTB, NEXTB.replace("block.0.iter().rev()", "block.0.iter()"))], ["C25"]),
    ("b-e-norev3", [(BL, "pending: first_block.0.iter().rev().collect(),", "pending: first_block.0.iter().collect(),")], ["C25"]),
    ("b-e-howiz", [(BL, GIB, GIB.replace("            Node::HowIzI(HowIzI { body, .. }) => Some(vec![body]),\n", ""))], ["C25"]),
    ("b-e-iminyr", [(BL, GIB, GIB.replace("Some(vec![code_block])", "{ let _ = code_block; None }"))], ["C25"]),
    ("b-e-nested", [(BL, NEXTB, NEXTB.replace("            for block in", "            if self.pending.len() > 1 && self.pending.len() < 3 { continue; }\n            for block in"))], ["C25"]),
    ("b-e-skip1", [(BL, NEXTB, NEXTB.replace("self.pending.extend(block.0.iter().rev());", "self.pending.extend(block.0.iter().skip(1).rev());"))], ["C25"]),
    ("b-e-mebbe1", [(BL, GIB, GIB.replace("mebbes\n                    .iter()", "mebbes\n                    .iter()\n                    .take(1)"))], ["C25"]),
    ("b-e-gtfo", [(BL, NEXTB, NEXTB.replace("            if let Node::ASTError(error)", "            if let Node::Gtfo(_) = node { continue; }\n            if let Node::ASTError(error)").replace("continue;", "self.pending.pop(); continue;"))], ["C25"]),
    ("n-e-rec", [(BL, ITERR, """    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
        let mut errors = Vec::new();
        collect_errors(self, &mut errors);
        errors.into_iter()
    }"""), (BL, "fn parse_block(", """fn collect_errors<'a>(block: &'a ASTBlock, out: &mut Vec<&'a ASTErrorType>) {
    for node in &block.0 {
        if let Node::ASTError(error) = node {
            out.push(error);
        }
        for inner in node.get_inner_block().unwrap_or_default() {
            collect_errors(inner, out);
        }
    }
}

fn parse_block(""")], []),
    ("b-e-rec-post", [(BL, ITERR, """    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
        let mut errors = Vec::new();
        collect_errors(self, &mut errors);
        errors.into_iter()
    }"""), (BL, "fn parse_block(", """fn collect_errors<'a>(block: &'a ASTBlock, out: &mut Vec<&'a ASTErrorType>) {
    for node in &block.0 {
        for inner in node.get_inner_block().unwrap_or_default() {
            collect_errors(inner, out);
        }
    }
    for node in &block.0 {
        if let Node::ASTError(error) = node {
            out.push(error);
        }
    }
}

fn parse_block(""")], ["C25"]),
    ("b-e-rec-else", [(BL, ITERR, """    pub fn iter_errors(&self) -> impl Iterator<Item = &ASTErrorType> + '_ {
        let mut errors = Vec::new();
        collect_errors(self, &mut errors);
        errors.into_iter()
    }"""), (BL, "fn parse_block(", """fn collect_errors<'a>(block: &'a ASTBlock, out: &mut Vec<&'a ASTErrorType>) {
    for node in &block.0 {
        if let Node::ASTError(error) = node {
            out.push(error);
        }
        for inner in node.get_inner_block().unwrap_or_default() {
            if out.len() < 1 { collect_errors(inner, out); }
        }
    }
}

fn parse_block(""")], ["C25"]),
    ("n-e-flat", [(BL, ITERR, """    pub fn iter_errors(&self) -> Box<dyn Iterator<Item = &ASTErrorType> + '_> {
        Box::new(self.0.iter().flat_map(|node| -> Box<dyn Iterator<Item = &ASTErrorType> + '_> {
            match node {
                Node::ASTError(error) => Box::new(std::iter::once(error)),
                _ => Box::new(node.get_inner_block().into_iter().flatten().flat_map(|b| b.iter_errors())),
            }
        }))
    }""")], []),
    ("n-e-stack", [(BL, NEXTB, """        loop {
            let node = self.pending.pop()?;
            match node {
                Node::ASTError(error) => return Some(error),
                other => {
                    let blocks = match other.get_inner_block() {
                        Some(blocks) => blocks,
                        None => continue,
                    };
                    for block in blocks.iter().rev() {
                        for child in block.0.iter().rev() {
                            self.pending.push(child);
                        }
                    }
                }
            }
        }""")], []),
    ("n-e-deque", [(BL, "    pending: Vec<&'a Node>,", "    pending: VecDeque<&'a Node>,"), (BL, "pending: first_block.0.iter().rev().collect(),", "pending: first_block.0.iter().collect(),"),
      (BL, NEXTB, NEXTB.replace("self.pending.pop()", "self.pending.pop_front()").replace("self.pending.extend(block.0.iter().rev());", "block.0.iter().rev().for_each(|n| self.pending.push_front(n));"))], []),
    ("n-e-gib", [(BL, GIB, """        let mut blocks: Vec<&ASTBlock> = Vec::new();
        match self {
            Node::Wtf(wtf) => {
                for omg in &wtf.omg {
                    blocks.push(&omg.block);
                }
                if let Some(last) = &wtf.omg_wtf {
                    blocks.push(&last.block);
                }
            }
            Node::ORly(o_rly) => {
                blocks.extend(o_rly.if_true.iter().map(|b| &b.block));
                blocks.extend(o_rly.mebbes.iter().map(|b| &b.block));
                blocks.extend(o_rly.if_false.iter().map(|b| &b.block));
            }
            Node::ImInYr(ImInYr { code_block, .. }) => blocks.push(code_block),
            Node::HowIzI(how_iz_i) => blocks.push(&how_iz_i.body),
            _ => return None,
        }
        Some(blocks)""")], []),
    ("n-e-frames", [(BL, "    pending: Vec<&'a Node>,", "    stack: Vec<std::collections::vec_deque::Iter<'a, Node>>,"), (BL, "pending: first_block.0.iter().rev().collect(),", "stack: vec![first_block.0.iter()],"),
      (BL, NEXTB, """        while let Some(top) = self.stack.last_mut() {
            match top.next() {
                None => {
                    self.stack.pop();
                }
                Some(Node::ASTError(error)) => return Some(error),
                Some(node) => {
                    if let Some(blocks) = node.get_inner_block() {
                        for block in blocks.into_iter().rev() {
                            self.stack.push(block.0.iter());
                        }
                    }
                }
            }
        }
        None""")], []),
]
