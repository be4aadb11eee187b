From a5f1fcde71b789cf0d8bd236af810731ecc20942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 01/21] fix: accept only when the whole input is reduced to the
 entry symbol

The table marked the goto on the entry symbol from the entry state as
accepting, whatever the lookahead was. LALR/LR(0)/GLR parsers accepted
valid prefixes followed by garbage (S = L S R | A accepted 'A R'), left
recursive entry symbols were accepted after the first reduction and
ambiguous GLR inputs panicked when two stacks reached the end.
---
 .../src/lr_parser/action_goto.rs              |  17 +--
 .../src/lr_parser/parser.cpp.tpl              |   2 +-
 .../src/lr_parser/parser_impl.h.tpl           |  26 ++--
 lapex-parser/src/lr_parser/mod.rs             |  37 +++---
 lapex-rust-codegen/src/glr_parser/mod.rs      | 111 ++++++++----------
 lapex-rust-codegen/src/lr_parser/mod.rs       |  42 +++----
 6 files changed, 99 insertions(+), 136 deletions(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..198ce3d 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -39,7 +39,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Accept => {
+            TableEntry::Shift { target: _ } => {
                 write!(output, "case ")?;
 
                 if let Symbol::NonTerminal(_) = symbol {
@@ -67,12 +67,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         writeln!(output, "{{")?;
         match entry {
             TableEntry::Shift { target } => {
-                writeln!(output, "Transition transition{{{}, false}};", target)?;
-                writeln!(output, "return transition;")?;
-            }
-            TableEntry::Accept => {
-                writeln!(output, "Transition transition{{0, true}};")?;
-                writeln!(output, "return transition;")?;
+                writeln!(output, "return {};", target)?;
             }
             _ => (),
         }
@@ -137,6 +132,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 writeln!(output, "Action act{{ActionType::Reduce, {}}};", rule_index)?;
                 writeln!(output, "return act;")?;
             }
+            TableEntry::Accept => {
+                writeln!(output, "Action act{{ActionType::Accept, 0}};")?;
+                writeln!(output, "return act;")?;
+            }
             _ => (),
         }
         writeln!(output, "}}")
@@ -149,7 +148,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => {
                 write!(output, "case ")?;
 
                 match symbol {
diff --git a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
index 493da7e..79c30ec 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl
@@ -20,7 +20,7 @@ namespace parser
         /*{stack_reduce_table}*/
     }
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol)
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol)
     {
         /*{goto_table}*/
     }
diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..7eb893f 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -30,6 +30,7 @@ namespace parser
     {
         Shift,
         Reduce,
+        Accept,
     };
 
     struct Action
@@ -38,17 +39,11 @@ namespace parser
         uint16_t reduced_rule;
     };
 
-    struct Transition
-    {
-        uint32_t next_state;
-        bool is_accepting;
-    };
-
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
 
     void reduce_stack(uint32_t rule, std::vector<Symbol> &parse_stack, std::vector<Symbol> &rev_reduced_symbols);
 
-    Transition retrieve_next_state(uint32_t state, const Symbol &current_symbol);
+    uint32_t retrieve_next_state(uint32_t state, const Symbol &current_symbol);
 
     template <class T>
     void reduce_visitor(Visitor<T> &visitor, const std::vector<Symbol> &rev_reduced_symbols, uint32_t rule)
@@ -69,7 +64,7 @@ namespace parser
         Symbol entry_symbol{SymbolKind::State, static_cast<uint32_t>(/*{entry_state}*/)};
         parse_stack.push_back(entry_symbol);
 
-        while (parse_stack.size() > 0)
+        while (true)
         {
             auto next_token_and_data = lookahead.front();
             lexer::TokenType next_tk = next_token_and_data.first;
@@ -91,19 +86,14 @@ namespace parser
                 reduce_stack(action.reduced_rule, parse_stack, rev_reduced_symbols);
                 reduce_visitor(this->visitor, rev_reduced_symbols, action.reduced_rule);
             }
-            Symbol current_symbol = parse_stack.back();
-            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
-            Transition transition = retrieve_next_state(stack_state, current_symbol);
-            if (transition.is_accepting)
-            {
-                parse_stack.pop_back();
-                parse_stack.pop_back();
-            }
             else
             {
-                Symbol next_state_symbol{SymbolKind::State, transition.next_state};
-                parse_stack.push_back(next_state_symbol);
+                return;
             }
+            Symbol current_symbol = parse_stack.back();
+            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
+            Symbol next_state_symbol{SymbolKind::State, retrieve_next_state(stack_state, current_symbol)};
+            parse_stack.push_back(next_state_symbol);
         }
     }
 }
diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..dcfbf91 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -188,15 +188,13 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
         for item in item_set {
             if let Some(transition_symbol) = item.symbol_after_dot() {
                 let mut target_item = item.clone();
-                if target_item.rule().lhs().is_some() {
-                    target_item.advance_dot();
-                    let target_item_set =
-                        expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
-                    let transition_set = transition_map
-                        .entry(transition_symbol)
-                        .or_insert(ItemHashSet::new());
-                    transition_set.extend(target_item_set.iter().map(|i| i.clone()));
-                }
+                target_item.advance_dot();
+                let target_item_set =
+                    expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
+                let transition_set = transition_map
+                    .entry(transition_symbol)
+                    .or_insert(ItemHashSet::new());
+                transition_set.extend(target_item_set.iter().map(|i| i.clone()));
             }
         }
         for (edge, item_set) in transition_map {
@@ -314,7 +312,9 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else {
+                    } else if reducing_items[0].rule().lhs().is_some() {
+                        // the completed entry rule is only accepted at the end of the input, so it
+                        // never competes with a shift
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -492,6 +492,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
         for item in item_set {
             // we can continue after this since there can be at most one reducable (conflicts already checked)
             if item.symbol_after_dot().is_none() {
+                if item.rule().lhs().is_none() {
+                    // the whole input was reduced to the entry symbol
+                    table.insert_accept(*state, Symbol::End);
+                    continue;
+                }
                 match N {
                     0 => {
                         for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
@@ -511,15 +516,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
             .map(|e| (*e.weight(), e.target()))
             .collect();
         for symbol in grammar.symbols() {
-            if symbol == *grammar.entry_point() && state.index() == entry_state {
-                table.insert_accept(*state, symbol);
+            if let Some(target) = reachable_states.get(&symbol) {
+                table.insert_shift(*state, symbol, *target);
             } else {
-                if let Some(target) = reachable_states.get(&symbol) {
-                    table.insert_shift(*state, symbol, *target);
-                } else {
-                    if table.get_entry(state.index(), symbol).is_none() {
-                        table.insert_error(*state, symbol);
-                    }
+                if table.get_entry(state.index(), symbol).is_none() {
+                    table.insert_error(*state, symbol);
                 }
             }
         }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..43935b1 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -212,12 +212,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Some(Goto::State { state_id: #target }),
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Some(Goto::Accept),
+                        #condition => Some(#target),
                     });
                 }
                 _ => (),
@@ -302,6 +297,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: ReducedRule::#rule_name }
                         });
                     }
+                    TableEntry::Accept => {
+                        actions_for_entry.push(quote! {
+                            Action::Accept
+                        });
+                    }
                     _ => (),
                 }
             }
@@ -320,7 +320,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut BTreeSet<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.insert(Some(token_index));
                 }
@@ -433,12 +435,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
-                Accept,
-                State { state_id: usize }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             type StateId = usize;
@@ -516,7 +514,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<Goto> {
+                fn next_goto(&self, state: &usize, symbol: &StackSymbol) -> Option<StateId> {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => None,
@@ -543,52 +541,48 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let stack = root.push(Some(#entry), None);
                     let mut stacks = vec![stack];
 
-                    while !(stacks.len() == 1 && stacks[0].is_root()) {
+                    loop {
                         let (next_token, next_data) = lookahead.front().unwrap();
                         let reduced = self
                             .apply_reduces(stacks, next_token, next_data)
                             .map_err(combine_errors)?;
 
+                        if let TokenType::EndOfFile = next_token {
+                            // nothing can be shifted at the end of the input, so all remaining stacks accept it
+                            self.visit_recorded(&reduced[0]);
+                            return Ok(());
+                        }
+
                         let (next_token, next_data) = lookahead.pop_front().unwrap();
                         let new_symbol = StackSymbol::Terminal { token: next_token };
                         lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
-                        let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
-                            reduced
-                        } else {
-                            let mut new_stacks = Vec::new();
-                            for stack in reduced {
-                                let state = *stack.top().unwrap();
-                                match self.next_goto(&state, &new_symbol) {
-                                    Some(Goto::State { state_id }) => {
-                                        stack.record(RecordedVisit::Shift {
-                                            token: next_token,
-                                            data: next_data.clone(),
-                                        });
-                                        let new_node = stack.push(Some(state_id), Some(new_symbol));
-                                        new_stacks.push(new_node);
-                                    }
-                                    Some(Goto::Accept) => unreachable!(),
-                                    None => (),
-                                }
+                        let mut new_stacks = Vec::new();
+                        for stack in reduced {
+                            let state = *stack.top().unwrap();
+                            if let Some(state_id) = self.next_goto(&state, &new_symbol) {
+                                stack.record(RecordedVisit::Shift {
+                                    token: next_token,
+                                    data: next_data.clone(),
+                                });
+                                let new_node = stack.push(Some(state_id), Some(new_symbol));
+                                new_stacks.push(new_node);
                             }
-                            new_stacks
-                        };
+                        }
                         if new_stacks.len() == 1 {
-                            let stack = new_stacks.pop().unwrap();
-                            let recorded = stack.pop_recorded();
-                            for record in recorded {
-                                match record {
-                                    RecordedVisit::Reduce { rule } => self.do_visit(&rule),
-                                    RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
-                                }
-                            }
-                            stacks = vec![stack];
-                        } else {
-                            stacks = new_stacks;
+                            self.visit_recorded(&new_stacks[0]);
+                        }
+                        stacks = new_stacks;
+                    }
+                }
+
+                fn visit_recorded(&mut self, stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>) {
+                    for record in stack.pop_recorded() {
+                        match record {
+                            RecordedVisit::Reduce { rule } => self.do_visit(&rule),
+                            RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
                         }
                     }
-                    Ok(())
                 }
 
                 fn apply_reduces(
@@ -613,11 +607,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
-                                                    &mut reduced,
                                                     &mut new_to_reduce,
                                                 );
                                             }
-                                            Action::Shift => {
+                                            Action::Shift | Action::Accept => {
                                                 reduced.push(stack.clone_and_fork_record());
                                             }
                                         };
@@ -641,7 +634,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
-                    accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
@@ -656,17 +648,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             stack = new_stack;
                         }
                         let state = *stack.top().unwrap();
-                        match self.next_goto(&state, &reduced_symbol) {
-                            Some(Goto::State { state_id }) => {
-                                // push new non-terminal
-                                let new_node = stack.push(Some(state_id), Some(reduced_symbol));
-                                new_to_reduce.push(new_node);
-                            }
-                            Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
-                            }
-                            None => (),
+                        if let Some(state_id) = self.next_goto(&state, &reduced_symbol) {
+                            // push new non-terminal
+                            let new_node = stack.push(Some(state_id), Some(reduced_symbol));
+                            new_to_reduce.push(new_node);
                         }
                     }
                 }
@@ -782,10 +767,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         self.recorded.borrow_mut().push(record);
                     }
 
-                    pub fn is_root(&self) -> bool {
-                        self.inner.borrow().node_value.is_none()
-                    }
-
                     pub fn push(self, value: Option<N>, edge: Option<E>) -> GraphNode<N, E, R> {
                         let mut new_node = self.new_with_same_record(value);
                         new_node.add_edge(edge, self);
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..0b2c0e3 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -159,12 +159,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             match entry {
                 TableEntry::Shift { target } => {
                     gotos.push(quote! {
-                        #condition => Goto::State { state_id: #target },
-                    });
-                }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Goto::Accept,
+                        #condition => #target,
                     });
                 }
                 _ => (),
@@ -244,6 +239,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Ok(Action::Reduce { rule: ReducedRule::#rule_name }),
                     });
                 }
+                TableEntry::Accept => {
+                    actions.push(quote! {
+                        #condition => Ok(Action::Accept),
+                    });
+                }
                 _ => (),
             }
         }
@@ -256,7 +256,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut Vec<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.push(Some(token_index));
                 }
@@ -370,12 +372,8 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
-            }
-
-            enum Goto {
-                Accept,
-                State { state_id: usize }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             #[derive(Debug)]
@@ -415,7 +413,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     }
                 }
 
-                fn next_goto(&self, state: usize, symbol: StackSymbol) -> Goto {
+                fn next_goto(&self, state: usize, symbol: StackSymbol) -> usize {
                     match (state, symbol) {
                         #(#gotos)*
                         (_, _) => unreachable!()
@@ -443,7 +441,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut stack = Vec::new();
                     stack.push(StackSymbol::State { state_id: #entry });
 
-                    while !stack.is_empty() {
+                    loop {
                         let (next_token, _) = lookahead.front().unwrap();
                         let state = match stack.last().unwrap() {
                             StackSymbol::State { state_id } => *state_id,
@@ -461,24 +459,16 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: reduced_rule } => {
                                 self.reduce_stack_and_visit(reduced_rule, &mut stack);
                             }
+                            Action::Accept => return Ok(()),
                         }
                         let current_symbol = stack.last().unwrap();
                         let state = match &stack[stack.len() - 2] {
                             StackSymbol::State { state_id } => *state_id,
                             _ => unreachable!()
                         };
-                        let goto = self.next_goto(state, *current_symbol);
-                        match goto {
-                            Goto::Accept => {
-                                stack.pop();
-                                stack.pop();
-                            }
-                            Goto::State { state_id } => {
-                                stack.push(StackSymbol::State { state_id })
-                            }
-                        }
+                        let state_id = self.next_goto(state, *current_symbol);
+                        stack.push(StackSymbol::State { state_id });
                     }
-                    Ok(())
                 }
             }
         };
-- 
2.43.0


From 2b7b16a00f91b05dc2ffb32746a39799427b16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 02/21] fix: LR(0) reduce actions only compete with shifts of
 terminals

---
 lapex-parser/src/lr_parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index dcfbf91..d51121e 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -312,9 +312,11 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else if reducing_items[0].rule().lhs().is_some() {
-                        // the completed entry rule is only accepted at the end of the input, so it
-                        // never competes with a shift
+                    } else if reducing_items[0].rule().lhs().is_some()
+                        && matches!(edge.weight(), Symbol::Terminal(_))
+                    {
+                        // the completed entry rule is only accepted at the end of the input and a
+                        // goto on a non-terminal consumes no input, so neither competes with a shift
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -499,7 +501,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
                 }
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From 44e4c9b86ae80ccce3a5515ff52256655b812a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 03/21] fix: drop epsilon from right-hand sides that contain
 other symbols

---
 lapex-parser/src/grammar.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar.rs b/lapex-parser/src/grammar.rs
index 200fb97..d0e5e7e 100644
--- a/lapex-parser/src/grammar.rs
+++ b/lapex-parser/src/grammar.rs
@@ -70,9 +70,15 @@ pub struct RuleDisplay<'rule, 'grammar> {
 impl<'rules> Rule<'rules> {
     pub fn new(
         lhs: Symbol,
-        rhs: Vec<Symbol>,
+        mut rhs: Vec<Symbol>,
         rule: &'rules Spanned<ProductionRule<'rules>>,
     ) -> Result<Self, GrammarError> {
+        // epsilon contributes nothing next to other symbols, it only stands on its own
+        if rhs.iter().any(|s| *s != Symbol::Epsilon) {
+            rhs.retain(|s| *s != Symbol::Epsilon);
+        } else {
+            rhs.truncate(1);
+        }
         let non_terminal_index = match lhs {
             Symbol::NonTerminal(i) => Some(i),
             _ => None,
-- 
2.43.0


From 8d02993ac6c19672d8ccae7f72a5ec480d541e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 04/21] fix: build automata for repetitions with equal lower
 and upper bound

---
 lapex-lexer/src/nfa/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..a45d166 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -110,14 +110,19 @@ fn build_nfa_from_pattern<'rules>(
                             let max_start = nfa.add_intermediate_state();
                             nfa.add_epsilon_transition(inner_end, max_start);
                             let max_end = nfa.add_intermediate_state();
-                            let mut max_intermediates = chain_pattern_times(
-                                alphabet,
-                                nfa,
-                                additional_until_max as usize,
-                                inner,
-                                max_start,
-                                max_end,
-                            );
+                            let mut max_intermediates = if additional_until_max == 0 {
+                                // exact repetition, nothing may follow
+                                Vec::new()
+                            } else {
+                                chain_pattern_times(
+                                    alphabet,
+                                    nfa,
+                                    additional_until_max as usize,
+                                    inner,
+                                    max_start,
+                                    max_end,
+                                )
+                            };
                             max_intermediates.push(max_start);
                             max_intermediates.push(max_end);
                             for mi in max_intermediates {
-- 
2.43.0


From 56603288c20b806b35cf6f20b5b7552e37762718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 05/21] fix: substitute the entry non-terminal in the C++ LL
 parser template

---
 lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From d62a86931c6a5d66995b7438d07c1f714a022cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 06/21] fix: dispatch the C++ LL parser table on the generated
 non-terminal enum

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..a6b37f8 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -153,12 +153,9 @@ impl<'parser> CodeWriter<'parser> {
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case static_cast<uint32_t>(NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
             for (terminal, token_name) in self.grammar.terminals_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
-- 
2.43.0


From 1d627c60ea7c3465ea8b8ebadf8b5d3201991d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 07/21] fix: handle the end of input as lookahead in the C++ LL
 parser table

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index a6b37f8..fd665b1 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -150,6 +150,12 @@ impl<'parser> CodeWriter<'parser> {
         writeln!(output, "throw std::runtime_error(\"{}\");", message)
     }
 
+    fn lookaheads_with_names(&self) -> impl Iterator<Item = (Symbol, &str)> {
+        self.grammar
+            .terminals_with_names()
+            .chain(std::iter::once((Symbol::End, "EOF")))
+    }
+
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
         writeln!(output, "switch(non_terminal.identifier) {{")?;
         for non_terminal in self.grammar.non_terminals() {
@@ -157,7 +163,7 @@ impl<'parser> CodeWriter<'parser> {
             self.write_non_terminal_enum_name(non_terminal, output)?;
             writeln!(output, "): {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            for (terminal, token_name) in self.lookaheads_with_names() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -169,8 +175,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                self.lookaheads_with_names()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
-- 
2.43.0


From 80467721ffae3e6d1574e40bb5f7a4a572466223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 08/21] fix: use tags only for the rules of the tagged
 production

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 13 ++++++++++---
 lapex-rust-codegen/src/lr_parser/mod.rs  | 11 +++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 43935b1..f90cb26 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -62,6 +62,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    fn get_rule_tag(&self, non_terminal: &Symbol, rule: &Rule<'rules>) -> Option<&'rules str> {
+        // the tag names an alternative of the tagged production, not of the anonymous
+        // non-terminals that its pattern expands to
+        self.grammar.get_production_name(non_terminal)?;
+        rule.rule().inner.tag
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -72,7 +79,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +121,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -365,7 +372,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 0b2c0e3..3de4f1e 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -58,6 +58,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    fn get_rule_tag(&self, non_terminal: &Symbol, rule: &Rule<'rules>) -> Option<&'rules str> {
+        // the tag names an alternative of the tagged production, not of the anonymous
+        // non-terminals that its pattern expands to
+        self.grammar.get_production_name(non_terminal)?;
+        rule.rule().inner.tag
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -68,7 +75,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -301,7 +308,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.get_rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From d0cd72e6c817fc91571f83cf44bed37751aba07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 09/21] fix: count columns of source positions in characters

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..9a9b0d6 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -526,7 +526,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().chars().count() as u16;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -534,7 +534,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 009025d40b48bdffac552fe85e62157c94516493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 10/21] fix: report failures of the command line through its
 exit status

---
 lapex-cli/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lapex-cli/src/main.rs b/lapex-cli/src/main.rs
index 9f3d6f5..91f70ef 100644
--- a/lapex-cli/src/main.rs
+++ b/lapex-cli/src/main.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{path::Path, process::ExitCode};
 
 use clap::{arg, command, Args, Parser, Subcommand};
 use lapex::{generate, Language, ParsingAlgorithm};
@@ -45,7 +45,7 @@ struct DebugArgs {
     algorithm: ParsingAlgorithm,
 }
 
-fn main() {
+fn main() -> ExitCode {
     let cli = CommandLine::parse();
     match cli.command {
         Commands::Generate(cmd) => {
@@ -66,6 +66,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    return ExitCode::FAILURE;
                 }
                 _ => {}
             }
@@ -93,6 +94,7 @@ fn main() {
                             eprintln!();
                         }
                     }
+                    return ExitCode::FAILURE;
                 }
                 _ => {
                     assert!(
@@ -155,8 +157,12 @@ fn main() {
                         eprintln!("Failed to parse {}", source_path.display());
                     }
                     target_dir.close().unwrap();
+                    if !exit_code.success() {
+                        return ExitCode::FAILURE;
+                    }
                 }
             }
         }
     }
+    ExitCode::SUCCESS
 }
-- 
2.43.0


From 11c4206774a9839ab9d4ef559c39aed1f8b345f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 11/21] fix: support productions with more than 254 symbols

---
 lapex-parser/src/lr_parser/item.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/lr_parser/item.rs b/lapex-parser/src/lr_parser/item.rs
index 43e8d6b..49503bc 100644
--- a/lapex-parser/src/lr_parser/item.rs
+++ b/lapex-parser/src/lr_parser/item.rs
@@ -8,7 +8,7 @@ use lapex_input::{ProductionRule, Spanned};
 
 use crate::grammar::{Grammar, Rule, Symbol};
 
-type DotIdx = u8;
+type DotIdx = usize;
 
 struct RuleRef<'grammar, 'rules>(pub &'grammar Rule<'rules>);
 
-- 
2.43.0


From 0125663dad49f93ed4117f7ea5dc7f4f8babbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 12/21] fix: report competing alternatives for LL(1) conflicts
 instead of a rule against itself

---
 lapex-parser/src/ll_parser/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/lapex-parser/src/ll_parser/mod.rs b/lapex-parser/src/ll_parser/mod.rs
index 6b768c6..ecbb386 100644
--- a/lapex-parser/src/ll_parser/mod.rs
+++ b/lapex-parser/src/ll_parser/mod.rs
@@ -183,8 +183,12 @@ pub fn generate_table(grammar: &Grammar) -> Result<LLParserTable, LLParserError>
     let follow_sets = compute_follow_sets(&grammar, &first_sets);
     let mut parser_table = LLParserTable::new();
     for rule in grammar.rules() {
-        let first_set_of_rhs = get_first_terminals_of_sequence(rule.rhs(), &first_sets);
-        for symbol in first_set_of_rhs.iter() {
+        let mut lookaheads = get_first_terminals_of_sequence(rule.rhs(), &first_sets);
+        if lookaheads.contains(&Symbol::Epsilon) {
+            // a token may be in both sets, the rule is inserted only once for it
+            lookaheads.extend(follow_sets.get(&rule.lhs().unwrap()).unwrap());
+        }
+        for symbol in lookaheads.iter() {
             match symbol {
                 Symbol::End | Symbol::Terminal(_) => {
                     parser_table.insert(rule.lhs().unwrap(), *symbol, rule.rhs().clone())?;
@@ -192,17 +196,6 @@ pub fn generate_table(grammar: &Grammar) -> Result<LLParserTable, LLParserError>
                 _ => (),
             }
         }
-        if first_set_of_rhs.contains(&Symbol::Epsilon) {
-            let follow_set_of_lhs = follow_sets.get(&rule.lhs().unwrap()).unwrap();
-            for symbol in follow_set_of_lhs.iter() {
-                match symbol {
-                    Symbol::End | Symbol::Terminal(_) => {
-                        parser_table.insert(rule.lhs().unwrap(), *symbol, rule.rhs().clone())?;
-                    }
-                    _ => (),
-                }
-            }
-        }
     }
     Ok(parser_table)
 }
-- 
2.43.0


From a099b4b72ead8b550c1276f7358840ed08292a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 13/21] fix: accept regexes whose alternatives share a common
 prefix

---
 lapex-input-gen/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 9a9b0d6..efdf82b 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -84,9 +84,15 @@ impl Display for RegexConversionError {
 
 fn make_pattern_from_hir(hir: &Hir) -> Result<Pattern, RegexConversionError> {
     Ok(match hir.kind() {
-        HirKind::Empty => {
-            return Err(RegexConversionError::EmptyRegex);
-        }
+        // the empty part of a larger regex, which also arises when the parser factors out
+        // the common prefix of alternatives, e.g. a+b|a+bc
+        HirKind::Empty => Pattern::Repetition {
+            min: 0,
+            max: Some(0),
+            inner: Box::new(Pattern::Sequence {
+                elements: Vec::new(),
+            }),
+        },
         HirKind::Literal(lit) => {
             let chars = std::str::from_utf8(lit.0.as_ref())?;
             Pattern::Sequence {
@@ -139,6 +145,9 @@ fn make_pattern_from_hir(hir: &Hir) -> Result<Pattern, RegexConversionError> {
 
 fn get_regex_pattern(text: &str) -> Result<Pattern, RegexConversionError> {
     let regex_ast = regex_syntax::parse(&text[1..text.len() - 1])?;
+    if let HirKind::Empty = regex_ast.kind() {
+        return Err(RegexConversionError::EmptyRegex);
+    }
     Ok(make_pattern_from_hir(&regex_ast)?)
 }
 
-- 
2.43.0


From b2846bb82ec842a6579c023c3e0f00bab16cb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 14/21] fix: count more than 65535 lines and columns in source
 positions

---
 lapex-input-gen/src/lib.rs | 8 ++++----
 lapex-input/src/lib.rs     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index efdf82b..25d2865 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -523,8 +523,8 @@ impl LapexInputParser for GeneratedLapexInputParser {
         let mut lexer = lexer::Lexer::new(source);
         let mut stack = Vec::new();
         let visitor = LapexAstVisitor { stack: &mut stack };
-        let mut col: u16 = 1;
-        let mut line: u16 = 1;
+        let mut col: u32 = 1;
+        let mut line: u32 = 1;
         let token_fun = || {
             let mut next_tk = lexer.next().unwrap();
             loop {
@@ -535,7 +535,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().chars().count() as u16;
+                        col += lexer.slice().chars().count() as u32;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -543,7 +543,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().chars().count() as u16;
+            col += lexer.slice().chars().count() as u32;
 
             let token_data = TokenData {
                 text: lexer.slice(),
diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..84bd361 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -2,8 +2,8 @@ use std::fmt::{Display, Formatter};
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
 pub struct SourcePos {
-    pub line: u16,
-    pub col: u16,
+    pub line: u32,
+    pub col: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
-- 
2.43.0


From fc7232daa0af88137d840e284ce05c29d0a43cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 15/21] fix: show the entry declaration for conflicts of the
 entry rule

---
 lapex-parser/src/grammar.rs         | 14 +++++++++++++-
 lapex-parser/src/grammar_builder.rs |  6 +++++-
 lapex/src/errors.rs                 |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lapex-parser/src/grammar.rs b/lapex-parser/src/grammar.rs
index d0e5e7e..58822e5 100644
--- a/lapex-parser/src/grammar.rs
+++ b/lapex-parser/src/grammar.rs
@@ -46,17 +46,28 @@ pub struct Rule<'rules> {
     lhs: Option<SymbolIdx>,
     rhs: Vec<Symbol>,
     rule: &'rules Spanned<ProductionRule<'rules>>,
+    span: SourceSpan,
 }
 
 impl<'rules> Rule<'rules> {
-    pub fn entry(entry_symbol: Symbol, rule: &'rules Spanned<ProductionRule<'rules>>) -> Self {
+    pub fn entry(
+        entry_symbol: Symbol,
+        rule: &'rules Spanned<ProductionRule<'rules>>,
+        span: SourceSpan,
+    ) -> Self {
         Rule {
             lhs: None,
             rhs: vec![entry_symbol],
             rule,
+            span,
         }
     }
 
+    /// where the rule is written: its production, or the entry declaration
+    pub fn span(&self) -> SourceSpan {
+        self.span
+    }
+
     pub fn rule(&self) -> &'rules Spanned<ProductionRule<'rules>> {
         self.rule
     }
@@ -88,6 +99,7 @@ impl<'rules> Rule<'rules> {
                 lhs: Some(non_terminal_index),
                 rhs,
                 rule,
+                span: rule.span,
             })
         } else {
             Err(GrammarError::RuleWithTerminalLeftHandSide)
diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..cef52dc 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -108,7 +108,11 @@ impl<'rules> GrammarBuilder<'rules> {
             .find(|r| r.inner.name == entry_name)
             .ok_or(GrammarError::MissingSymbol(String::from(entry_name)))?;
         // the entry rule is a pseudo-rule that has no LHS and maps to the entry symbol.
-        let entry_rule = Rule::entry(entry_symbol, &entry_production);
+        let entry_rule = Rule::entry(
+            entry_symbol,
+            &entry_production,
+            self.rule_set.entry_rule.span,
+        );
         Ok(Grammar::new(
             entry_symbol,
             entry_rule,
diff --git a/lapex/src/errors.rs b/lapex/src/errors.rs
index c4cdbac..175c113 100644
--- a/lapex/src/errors.rs
+++ b/lapex/src/errors.rs
@@ -93,7 +93,7 @@ impl LapexError {
                             state: *state,
                             symbol_name,
                             location: Location::from_span(
-                                item_to_reduce.production().span,
+                                item_to_reduce.rule().span(),
                                 file,
                                 contents,
                             )
@@ -111,7 +111,7 @@ impl LapexError {
                             .map(|item| {
                                 let item_text = format!("{}", item.display(grammar));
                                 let location =
-                                    Location::from_span(item.production().span, file, contents)
+                                    Location::from_span(item.rule().span(), file, contents)
                                         .unwrap();
                                 (location, item_text)
                             })
-- 
2.43.0


From 0ed07fa918d11f7ba792c5fd0af1f70ed0e55229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 16/21] fix: generate Rust names for names with doubled or
 trailing underscores

---
 lapex-rust-codegen/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..0dc39c1 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -74,6 +74,7 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
+        .filter(|s| !s.is_empty())
         .map(|s| {
             let (head, tail) = s.split_at(1);
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
-- 
2.43.0


From e5b6934bed725fcbb694cb534253214df2b442bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 17/21] fix: build token automata without recursion over their
 states

---
 lapex-automaton/src/lib.rs | 125 +++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 62 deletions(-)

diff --git a/lapex-automaton/src/lib.rs b/lapex-automaton/src/lib.rs
index c9b158d..3512343 100644
--- a/lapex-automaton/src/lib.rs
+++ b/lapex-automaton/src/lib.rs
@@ -142,17 +142,17 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
     Nfa<StateType, TransitionType>
 {
     fn epsilon_closure(&self, start_nodes: Vec<StateId>, closure: &mut BTreeSet<StateId>) {
-        for start_node in start_nodes {
-            closure.insert(start_node);
+        let mut to_visit = start_nodes;
+        while let Some(node) = to_visit.pop() {
+            if !closure.insert(node) {
+                continue;
+            }
             let edges = self
                 .graph
-                .edges_directed(start_node, petgraph::Direction::Outgoing);
+                .edges_directed(node, petgraph::Direction::Outgoing);
             for edge in edges {
                 if let NfaEdge::Epsilon = edge.weight() {
-                    let target = edge.target();
-                    if !closure.contains(&target) {
-                        self.epsilon_closure(vec![target], closure);
-                    }
+                    to_visit.push(edge.target());
                 }
             }
         }
@@ -161,6 +161,7 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
     fn add_powerset_to_dfa(
         &self,
         dfa: &mut Graph<BTreeSet<StateId>, TransitionType>,
+        to_expand: &mut Vec<StateId>,
         nodes: Vec<StateId>,
     ) -> StateId {
         let mut closure = BTreeSet::new(); // TODO: test perf of different data structures
@@ -175,64 +176,68 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
             // if the powerset exists, no need to recompute
             node_dfa
         } else {
-            // if the powerset is new, add it to the graph and recurse
-            let node_dfa = dfa.add_node(closure.clone());
+            // if the powerset is new, add it to the graph and expand it later
+            let node_dfa = dfa.add_node(closure);
+            to_expand.push(node_dfa);
+            node_dfa
+        }
+    }
 
-            let mut target_multi_map: BTreeMap<TransitionType, Vec<StateId>> = BTreeMap::new();
-            for node in closure {
-                let edges = self
-                    .graph
-                    .edges_directed(node, petgraph::Direction::Outgoing);
-                for edge in edges {
-                    if let NfaEdge::Transition(t) = edge.weight() {
-                        let target = edge.target();
-                        target_multi_map
-                            .entry(t.clone())
-                            .or_insert(Vec::new())
-                            .push(target);
-                    }
+    fn expand_powerset(
+        &self,
+        dfa: &mut Graph<BTreeSet<StateId>, TransitionType>,
+        to_expand: &mut Vec<StateId>,
+        node_dfa: StateId,
+    ) {
+        let mut target_multi_map: BTreeMap<TransitionType, Vec<StateId>> = BTreeMap::new();
+        for node in dfa.node_weight(node_dfa).unwrap() {
+            let edges = self
+                .graph
+                .edges_directed(*node, petgraph::Direction::Outgoing);
+            for edge in edges {
+                if let NfaEdge::Transition(t) = edge.weight() {
+                    let target = edge.target();
+                    target_multi_map
+                        .entry(t.clone())
+                        .or_insert(Vec::new())
+                        .push(target);
                 }
             }
-            for (t, targets) in target_multi_map {
-                let target_dfa = self.add_powerset_to_dfa(dfa, targets);
-                dfa.add_edge(node_dfa, target_dfa, t);
-            }
-            node_dfa
+        }
+        for (t, targets) in target_multi_map {
+            let target_dfa = self.add_powerset_to_dfa(dfa, to_expand, targets);
+            dfa.add_edge(node_dfa, target_dfa, t);
         }
     }
 
     fn convert_powerset_to_dfa(
         &self,
         powerset_dfa: &Graph<BTreeSet<StateId>, TransitionType>,
-        tmp_id: &mut usize,
         dfa: &mut Dfa<Vec<StateType>, TransitionType>,
-        visited: &mut BTreeMap<StateId, StateId>,
-        node: StateId,
-    ) -> StateId {
-        let mut accepts = Vec::new();
-        let powerset = powerset_dfa.node_weight(node).unwrap();
-        for nfa_index in powerset {
-            let state = self.graph.node_weight(*nfa_index);
-            if let Some(AutomatonState::Accepting(s)) = state {
-                accepts.push(s.clone());
+    ) {
+        let mut converted = BTreeMap::new();
+        for (node, powerset) in powerset_dfa.node_references() {
+            let mut accepts = Vec::new();
+            for nfa_index in powerset {
+                let state = self.graph.node_weight(*nfa_index);
+                if let Some(AutomatonState::Accepting(s)) = state {
+                    accepts.push(s.clone());
+                }
             }
-        }
-        let start = if !accepts.is_empty() {
-            dfa.add_accepting_state(accepts)
-        } else {
-            dfa.add_intermediate_state()
-        };
-        visited.insert(node, start);
-
-        for edge in powerset_dfa.edges_directed(node, petgraph::Direction::Outgoing) {
-            let end = if let Some(end) = visited.get(&edge.target()) {
-                *end
+            let state = if !accepts.is_empty() {
+                dfa.add_accepting_state(accepts)
             } else {
-                self.convert_powerset_to_dfa(powerset_dfa, tmp_id, dfa, visited, edge.target())
+                dfa.add_intermediate_state()
             };
-            dfa.add_transition(start, end, edge.weight().clone());
+            converted.insert(node, state);
+        }
+        for edge in powerset_dfa.edge_references() {
+            dfa.add_transition(
+                converted[&edge.source()],
+                converted[&edge.target()],
+                edge.weight().clone(),
+            );
         }
-        start
     }
 
     pub fn powerset_construction(
@@ -241,19 +246,15 @@ impl<StateType: Clone + Debug, TransitionType: Debug + Clone + Eq + Ord>
     ) -> Dfa<Vec<StateType>, TransitionType> {
         let mut powerset_dfa: Graph<BTreeSet<StateId>, TransitionType> = DiGraph::new();
 
-        let start_dfa = self.add_powerset_to_dfa(&mut powerset_dfa, vec![entrypoint]);
+        // long tokens have long chains of states, so the states are not visited recursively
+        let mut to_expand = Vec::new();
+        self.add_powerset_to_dfa(&mut powerset_dfa, &mut to_expand, vec![entrypoint]);
+        while let Some(node_dfa) = to_expand.pop() {
+            self.expand_powerset(&mut powerset_dfa, &mut to_expand, node_dfa);
+        }
 
-        let mut tmp_id = 0;
         let mut dfa = Dfa::new();
-
-        let mut visited = BTreeMap::new();
-        self.convert_powerset_to_dfa(
-            &powerset_dfa,
-            &mut tmp_id,
-            &mut dfa,
-            &mut visited,
-            start_dfa,
-        );
+        self.convert_powerset_to_dfa(&powerset_dfa, &mut dfa);
 
         dfa
     }
-- 
2.43.0


From 792fc0686680e1fee6c0d4f01c6d215d6fe58f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 18/21] fix: report errors of writing the last part of a
 generated file

The buffered writer of each generated file was dropped without being
flushed, which ignores errors: on a full disk the files were empty or cut
short and the command line still reported success.
---
 lapex-codegen/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lapex-codegen/src/lib.rs b/lapex-codegen/src/lib.rs
index cd9a4ae..98ad421 100644
--- a/lapex-codegen/src/lib.rs
+++ b/lapex-codegen/src/lib.rs
@@ -46,7 +46,9 @@ impl<'writer> GeneratedCodeWriter<'writer> {
             code_generator(writer)
         } else {
             let mut sink = (self.default_writer_fun)(key)?;
-            code_generator(&mut sink)
+            code_generator(&mut sink)?;
+            // a buffered writer that is dropped ignores errors
+            sink.flush()
         }
     }
 }
-- 
2.43.0


From 9020388a4e5e9695616b8089e5183d4662d219a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 19/21] fix: keep productions whose names differ only in case
 or underscores apart in generated code

---
 lapex-cpp-codegen/src/ll_parser/mod.rs | 13 +++++++------
 lapex-cpp-codegen/src/lr_parser/mod.rs | 13 +++++++------
 lapex-rust-codegen/src/lib.rs          | 13 +++++++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index fd665b1..e5f3727 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -71,14 +71,15 @@ impl<'parser> CodeWriter<'parser> {
         non_terminal: Symbol,
         output: &mut dyn Write,
     ) -> Result<(), Error> {
-        if let Some(name) = self.grammar.get_production_name(&non_terminal) {
-            write!(output, "NT_{}", name.to_uppercase())?;
-        } else {
-            if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
-                write!(output, "NT_ANON{}", non_terminal_index)?;
+        if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
+            if let Some(name) = self.grammar.get_production_name(&non_terminal) {
+                // names may only differ in case, so the name alone is not unique
+                write!(output, "NT_{}_{}", non_terminal_index, name.to_uppercase())?;
             } else {
-                unreachable!()
+                write!(output, "NT_ANON{}", non_terminal_index)?;
             }
+        } else {
+            unreachable!()
         }
         Ok(())
     }
diff --git a/lapex-cpp-codegen/src/lr_parser/mod.rs b/lapex-cpp-codegen/src/lr_parser/mod.rs
index e1ac36a..7365120 100644
--- a/lapex-cpp-codegen/src/lr_parser/mod.rs
+++ b/lapex-cpp-codegen/src/lr_parser/mod.rs
@@ -63,14 +63,15 @@ impl<'grammar: 'rules, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal: Symbol,
         output: &mut dyn Write,
     ) -> Result<(), Error> {
-        if let Some(name) = self.grammar.get_production_name(&non_terminal) {
-            write!(output, "NT_{}", name.to_uppercase())?;
-        } else {
-            if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
-                write!(output, "NT_ANON{}", non_terminal_index)?;
+        if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
+            if let Some(name) = self.grammar.get_production_name(&non_terminal) {
+                // names may only differ in case, so the name alone is not unique
+                write!(output, "NT_{}_{}", non_terminal_index, name.to_uppercase())?;
             } else {
-                unreachable!()
+                write!(output, "NT_ANON{}", non_terminal_index)?;
             }
+        } else {
+            unreachable!()
         }
         Ok(())
     }
diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index 0dc39c1..8bce159 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -61,14 +61,15 @@ fn get_token_enum_name(name: &str) -> String {
 }
 
 fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String {
-    if let Some(name) = grammar.get_production_name(&non_terminal) {
-        format!("Nt{}", convert_snake_to_upper_camel(name))
-    } else {
-        if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
-            format!("NtAnon{}", non_terminal_index)
+    if let Symbol::NonTerminal(non_terminal_index) = non_terminal {
+        if let Some(name) = grammar.get_production_name(&non_terminal) {
+            // names may only differ in case or underscores, so the name alone is not unique
+            format!("Nt{}{}", non_terminal_index, convert_snake_to_upper_camel(name))
         } else {
-            unreachable!()
+            format!("NtAnon{}", non_terminal_index)
         }
+    } else {
+        unreachable!()
     }
 }
 
-- 
2.43.0


From 6ac1c134b377b62fc5191c816e3a0fe9f9f5fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 20/21] fix: drop long stacks of generated GLR parsers without
 recursion

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index f90cb26..3a0e53e 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -795,6 +795,18 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     node_value: Option<N>,
                     neighbors: Vec<(Option<E>, GraphNode<N, E, R>)>,
                 }
+
+                impl<N, E, R> Drop for GraphNodeInner<N, E, R> {
+                    // dropping the predecessors of a long stack recursively would overflow the call stack
+                    fn drop(&mut self) {
+                        let mut unlinked = std::mem::take(&mut self.neighbors);
+                        while let Some((_edge, node)) = unlinked.pop() {
+                            if let Ok(inner) = Rc::try_unwrap(node.inner) {
+                                unlinked.append(&mut inner.into_inner().neighbors);
+                            }
+                        }
+                    }
+                }
             }
         };
         write!(output, "{}", tokens)
-- 
2.43.0


From 43719658115df07bf73c1c290a0e6be8f30fbe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 21/21] fix: refuse grammars with more symbols than their index
 can count

---
 lapex-parser/src/grammar_builder.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index cef52dc..49a1d09 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -21,14 +21,18 @@ impl<'rules> GrammarBuilder<'rules> {
             .token_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::Terminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| {
+                SymbolIdx::try_from(i).map(|i| (rule.inner.name, Symbol::Terminal(i), rule))
+            })
+            .collect::<Result<_, _>>()?;
         let production_triples: Vec<(&str, Symbol, &Spanned<ProductionRule>)> = rule_set
             .production_rules
             .iter()
             .enumerate()
-            .map(|(i, rule)| (rule.inner.name, Symbol::NonTerminal(i as SymbolIdx), rule))
-            .collect();
+            .map(|(i, rule)| {
+                SymbolIdx::try_from(i).map(|i| (rule.inner.name, Symbol::NonTerminal(i), rule))
+            })
+            .collect::<Result<_, _>>()?;
         let mut symbols_with_span = BTreeMap::new();
         let mut tokens = BTreeMap::new();
         let mut productions = BTreeMap::new();
@@ -80,9 +84,16 @@ impl<'rules> GrammarBuilder<'rules> {
     }
 
     fn get_temp_symbol(&mut self) -> Result<Symbol, GrammarError> {
-        let non_terminal = Symbol::NonTerminal(self.temp_count + self.max_symbol + 1);
+        self.temp_count = self
+            .temp_count
+            .checked_add(1)
+            .ok_or(GrammarError::TooManyRules)?;
+        let index = self
+            .temp_count
+            .checked_add(self.max_symbol)
+            .ok_or(GrammarError::TooManyRules)?;
+        let non_terminal = Symbol::NonTerminal(index);
         self.anonymous_non_terminals.push(non_terminal.clone());
-        self.temp_count = self.temp_count.checked_add(1).unwrap();
         Ok(non_terminal)
     }
 
-- 
2.43.0

