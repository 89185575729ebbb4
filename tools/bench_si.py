CHECKS = ["C11"]
F = "src/parser/statement_iterator.rs"
NEXT = """        match self.tokens_iter.peek().map(|t| (&t.token_type, &t.range)) {
            None | Some((TokenType::Comma, _)) => None,
            Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {
                self.tokens_iter.next();
                self.tokens_iter
                    .peek()
                    .map(|t| self.current_line = t.range.start_line());
                self.next()
            }
            Some((_, range)) => {
                if range.start_line() == self.current_line {
                    self.current_line = range.end_line();
                    self.tokens_iter.next()
                } else {
                    None
                }
            }
        }
"""
EDITS = [
 ("b-endline", [(F, "self.current_line = range.end_line();", "self.current_line = range.start_line();")], ["C11"]),
 ("b-noell", [(F, "TokenType::Comma | TokenType::Ellipsis))", "TokenType::Comma))")], ["C11"]),
 ("b-nocomma", [(F, "TokenType::Comma | TokenType::Ellipsis))", "TokenType::Ellipsis))")], ["C11"]),
 ("b-once", [(F, "        while self\n            .tokens_iter", "        if self\n            .tokens_iter"), (F, "            .is_some()\n        {}", "            .is_some()\n        {}")], ["C11"]),
 ("b-peekkeep", [(F, "        self.peeked = None;\n", "")], ["C11"]),
 ("b-ellany", [(F, "Some((TokenType::Ellipsis, range)) if range.start_line() == self.current_line => {", "Some((TokenType::Ellipsis, _)) => {")], ["C11"]),
 ("b-peeklose", [(F, "                self.peeked = Some(self.next());\n                self.peeked.as_ref().unwrap().as_ref()", "                let t = self.next(); self.peeked = if t.is_some() { Some(t) } else { None };\n                self.peeked.as_ref().and_then(|x| x.as_ref())")], []),
 ("b-peektake", [(F, "Some(ref val) => val.as_ref(),", "Some(Some(ref val)) => Some(val), Some(None) => { self.peeked = None; None }")], []),
 ("b-ellline", [(F, "                self.tokens_iter\n                    .peek()\n                    .map(|t| self.current_line = t.range.start_line());\n                self.next()", "                self.current_line += 1;\n                self.next()")], ["C11"]),
 ("b-ellskip2", [(F, "                self.tokens_iter.next();\n                self.tokens_iter\n                    .peek()\n                    .map(|t| self.current_line = t.range.start_line());\n                self.next()", "                while self.tokens_iter.next_if(|t| t.token_type == TokenType::Ellipsis).is_some() {}\n                self.tokens_iter\n                    .peek()\n                    .map(|t| self.current_line = t.range.start_line());\n                self.next()")], ["C11"]),
 ("b-newline0", [(F, "tokens.first().map(|t| t.range.start_line()).unwrap_or(0)", "tokens.first().map(|t| t.range.start_line()).unwrap_or(0).min(1)")], ["C11"]),
 ("b-stay", [(F, "        self.tokens_iter\n            .peek()\n            .map(|t| self.current_line = t.range.start_line());\n\n        remaining_tokens", "        if !remaining_tokens.is_empty() { self.tokens_iter\n            .peek()\n            .map(|t| self.current_line = t.range.start_line()); }\n\n        remaining_tokens")], ["C11"]),
 ("n-gt", [(F, "                if range.start_line() == self.current_line {", "                if !(range.start_line() > self.current_line) {")], []),
 ("n-loop", [(F, NEXT, """        loop {
            let (is_comma, is_ellipsis, start, end) = match self.tokens_iter.peek() {
                None => return None,
                Some(t) => (t.token_type == TokenType::Comma, t.token_type == TokenType::Ellipsis, t.range.start_line(), t.range.end_line()),
            };
            if is_comma || start != self.current_line { return None; }
            let token = self.tokens_iter.next();
            if !is_ellipsis { self.current_line = end; return token; }
            if let Some(t) = self.tokens_iter.peek() { self.current_line = t.range.start_line(); }
        }
""")], []),
 ("n-helper", [(F, NEXT, """        if self.tokens_iter.next_if(|t| t.token_type == TokenType::Ellipsis && t.range.start_line() == self.current_line).is_some() {
            self.sync();
            return self.next();
        }
        let line = self.current_line;
        let token = self.tokens_iter.next_if(|t| t.token_type != TokenType::Comma && t.range.start_line() == line)?;
        self.current_line = token.range.end_line();
        Some(token)
"""), (F, "impl StatementIterator {\n", "impl StatementIterator {\n fn sync(&mut self) { if let Some(t) = self.tokens_iter.peek() { self.current_line = t.range.start_line(); } }\n"),
  (F, "        self.tokens_iter\n            .peek()\n            .map(|t| self.current_line = t.range.start_line());\n\n        remaining_tokens", "        self.sync();\n        remaining_tokens")], []),
 ("n-restloop", [(F, "        let remaining_tokens = self.collect();\n        self.peeked = None;\n", "        let mut remaining_tokens = VecDeque::new();\n        while let Some(t) = self.next() { remaining_tokens.push_back(t); }\n        self.peeked = None;\n")], []),
 ("n-restorder", [(F, "        let remaining_tokens = self.collect();\n        self.peeked = None;\n", "        let remaining_tokens: VecDeque<Token> = std::iter::from_fn(|| self.next()).collect();\n        let _ = self.peeked.take();\n")], []),
 ("n-vecdeque", [(F, "tokens_iter: Peekable<std::vec::IntoIter<Token>>,", "tokens_iter: VecDeque<Token>,"),
   (F, "tokens_iter: tokens.into_iter().peekable(),", "tokens_iter: tokens.into(),"),
   (F, "        while self\n            .tokens_iter\n            .next_if(|t| matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis))\n            .is_some()\n        {}\n\n        self.tokens_iter\n            .peek()", "        while matches!(self.tokens_iter.front(), Some(t) if matches!(t.token_type, TokenType::Comma | TokenType::Ellipsis)) { self.tokens_iter.pop_front(); }\n        self.tokens_iter\n            .front()"),
   (F, NEXT, NEXT.replace(".next();", ".pop_front();").replace("tokens_iter.next()\n", "tokens_iter.pop_front()\n").replace("peek()", "front()"))], []),
 ("n-peekentry", [(F, "        match self.peeked {\n            Some(ref val) => val.as_ref(),\n            None => {\n                self.peeked = Some(self.next());\n                self.peeked.as_ref().unwrap().as_ref()\n            }\n        }", "        if self.peeked.is_none() { let t = self.next(); self.peeked = Some(t); }\n        match &self.peeked { Some(Some(t)) => Some(t), _ => None }")], []),
 ("n-peekflat", [(F, "        match self.peeked {\n            Some(ref val) => val.as_ref(),\n            None => {\n                self.peeked = Some(self.next());\n                self.peeked.as_ref().unwrap().as_ref()\n            }\n        }", "        if self.peeked.is_none() { self.peeked = Some(self.next()); }\n        self.peeked.as_ref().and_then(Option::as_ref)")], []),
]
