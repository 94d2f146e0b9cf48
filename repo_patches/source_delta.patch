From 4e27ceed113b00ff5f06ac7380fb237a90b44d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 01/71] fix: keep line index and columns right for incremental
 edits around line ends

An edit that joins or splits a CR LF pair left stale line starts, and a column
beyond the end of a line spilled over into the following lines.
---
 parser_library/src/workspaces/file_impl.cpp | 49 +++------------------
 1 file changed, 5 insertions(+), 44 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..5a2a487 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -127,54 +127,14 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
-
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
     text_.replace(begin, end - begin, new_text);
 
-    std::vector<size_t> new_lines;
-
-    find_newlines(new_text, new_lines);
-
-
-    size_t old_lines_count = range_end_line - range_start_line;
-    size_t new_lines_count = new_lines.size();
-
-    size_t char_diff = new_text.size() - (end - begin);
-
-    // add or remove lines depending on the difference
-    if (new_lines_count > old_lines_count)
-    {
-        size_t diff = new_lines_count - old_lines_count;
-        lines_ind_.insert(lines_ind_.end(), diff, 0);
-
-        for (size_t i = lines_ind_.size() - 1; i > range_end_line + diff; --i)
-        {
-            lines_ind_[i] = lines_ind_[i - diff] + char_diff;
-        }
-    }
-    else
-    {
-        size_t diff = old_lines_count - new_lines_count;
-
-        for (size_t i = range_start_line + 1 + new_lines_count; i < lines_ind_.size() - diff; ++i)
-        {
-            lines_ind_[i] = lines_ind_[i + diff] + char_diff;
-        }
-
-        for (size_t i = 0; i < diff; ++i)
-            lines_ind_.pop_back();
-    }
-
-
-    for (size_t i = range_start_line + 1; i <= range_start_line + new_lines_count; ++i)
-    {
-        lines_ind_[i] = new_lines[i - (size_t)range_start_line - 1] + begin;
-    }
-
+    // an edit can join or split CR LF pairs with the text around it,
+    // so the line beginnings cannot be derived from the inserted text only
+    lines_ind_ = create_line_indices(text_);
 
     ++version_;
 }
@@ -238,7 +198,8 @@ size_t file_impl::index_from_position(const std::string& text, const std::vector
     size_t i = line_indices[loc.line];
     size_t utf16_counter = 0;
 
-    while (utf16_counter < end && i < text.size())
+    // a column beyond the end of the line denotes the end of that line
+    while (utf16_counter < end && i < text.size() && text[i] != '\n' && text[i] != '\r')
     {
         if (!utf8_one_byte_begin(text[i]))
         {
-- 
2.43.0


From 3fca16f9fb7738083759dc4ab30d01424a08c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 02/71] fix: return the left operand of a conditional assembly
 shift by 0 and sign-fill SRA by 32 or more

---
 .../expressions/conditional_assembly/ca_operator_binary.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 55b8056..e4d1e7f 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -103,7 +103,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
 {
     auto shift_part = rhs & 0x3f; // first 6 bits
     if (shift_part == 0)
-        return rhs;
+        return lhs;
 
     std::uint32_t unsigned_lhs = lhs;
     auto sign_bit = unsigned_lhs & (1U << 31);
@@ -118,7 +118,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
                 result = sign_bit;
                 break;
             case ca_expr_ops::SRA:
-                result = ~0U;
+                result = sign_bit ? ~0U : 0;
                 break;
             default:
                 result = 0;
-- 
2.43.0


From ae3a259e9422d0be8b51fad885e125784a66c2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 03/71] fix: compare arithmetic operands without overflowing

---
 .../src/expressions/conditional_assembly/ca_operator_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index e4d1e7f..ff4b809 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -233,7 +233,7 @@ int ca_function_binary_operator::compare_relational(
     switch (type)
     {
         case context::SET_t_enum::A_TYPE:
-            return lhs.access_a() - rhs.access_a();
+            return (lhs.access_a() > rhs.access_a()) - (lhs.access_a() < rhs.access_a());
         case context::SET_t_enum::C_TYPE:
             return compare_string(lhs.access_c(), rhs.access_c());
         default:
-- 
2.43.0


From 922d04f5a8666817a65ba6781518f257aba4c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 04/71] fix: X2C checks both hexadecimal digits of a character

---
 .../src/expressions/conditional_assembly/terms/ca_function.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
index 5502b8b..175908c 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
@@ -667,7 +667,7 @@ context::SET_t ca_function::X2C(const context::C_t& param, diagnostic_adder& add
     for (auto c = new_string.c_str(); c != new_string.c_str() + new_string.size(); c += 2)
     {
         unsigned char value = 0;
-        if (std::isxdigit(*c))
+        if (std::isxdigit((unsigned char)c[0]) && std::isxdigit((unsigned char)c[1]))
             std::from_chars(c, c + 2, value, 16);
         else
             RET_ERRPARM;
-- 
2.43.0


From 950fcc2b6802296b544b2a3b737f68bb55ac6d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:52 +0000
Subject: [PATCH 05/71] fix: bind all higher priority operators of a
 conditional assembly expression before a lower priority one

---
 .../terms/ca_expr_list.cpp                    | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
index 12227a9..397ef39 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
@@ -169,6 +169,7 @@ ca_expr_ptr ca_expr_list::retrieve_term(size_t& it, int priority)
 
     // first possible term
     auto& curr_expr = expr_list[it];
+    ca_expr_ptr left_expr;
 
     // is unary op
     if (is_symbol(curr_expr))
@@ -179,36 +180,41 @@ ca_expr_ptr ca_expr_list::retrieve_term(size_t& it, int priority)
             if (!new_expr)
                 return nullptr;
 
-            return std::make_unique<ca_function_unary_operator>(
+            left_expr = std::make_unique<ca_function_unary_operator>(
                 std::move(new_expr), op_type, EXPR_POLICY::set_type, curr_expr->expr_range);
         }
     }
 
-    // is only term
-    if (it + 1 == expr_list.size())
-        return std::move(expr_list[it++]);
+    // is term
+    if (!left_expr)
+        left_expr = std::move(expr_list[it++]);
 
-    // tries to get binary operator
-    auto op_it = ++it;
-    auto op_range = expr_list[op_it]->expr_range;
-    bool err = false;
+    // binds all following operators of higher priority than the calling one
+    while (it != expr_list.size())
+    {
+        auto op_it = it;
+        auto op_range = expr_list[op_it]->expr_range;
+        bool err = false;
 
-    auto [op_prio, op_type] = retrieve_binary_operator<EXPR_POLICY>(op_it, err);
-    if (err)
-        return nullptr;
+        auto [op_prio, op_type] = retrieve_binary_operator<EXPR_POLICY>(op_it, err);
+        if (err)
+            return nullptr;
+
+        // if operator is of lower priority than the calling operator, finish
+        if (op_prio >= priority)
+            break;
 
-    // if operator is of lower priority than the calling operator, finish
-    if (op_prio >= priority)
-        return std::move(curr_expr);
-    else
         it = op_it;
 
-    auto right_expr = retrieve_term<EXPR_POLICY>(++it, op_prio);
-    if (!right_expr)
-        return nullptr;
+        auto right_expr = retrieve_term<EXPR_POLICY>(++it, op_prio);
+        if (!right_expr)
+            return nullptr;
+
+        left_expr = std::make_unique<ca_function_binary_operator>(
+            std::move(left_expr), std::move(right_expr), op_type, EXPR_POLICY::set_type, op_range);
+    }
 
-    return std::make_unique<ca_function_binary_operator>(
-        std::move(curr_expr), std::move(right_expr), op_type, EXPR_POLICY::set_type, op_range);
+    return left_expr;
 }
 
 template<typename EXPR_POLICY>
-- 
2.43.0


From 0cc13135b1817f7259928b6ec11bc8bdfd894a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:08 +0000
Subject: [PATCH 06/71] fix: do not reuse the operandless statement cached in a
 macro for an instruction with operands

---
 .../members_statement_provider.cpp               | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/processing/statement_providers/members_statement_provider.cpp b/parser_library/src/processing/statement_providers/members_statement_provider.cpp
index 3724fd0..3b77fea 100644
--- a/parser_library/src/processing/statement_providers/members_statement_provider.cpp
+++ b/parser_library/src/processing/statement_providers/members_statement_provider.cpp
@@ -80,6 +80,14 @@ const semantics::instruction_si& members_statement_provider::retrieve_instructio
     }
 }
 
+namespace {
+// operandless instructions must not share the cached statement with instructions of the same form that have operands
+processing_form cache_form(const processing_status& status)
+{
+    return status.first.occurence == operand_occurence::ABSENT ? processing_form::IGNORED : status.first.form;
+}
+} // namespace
+
 void members_statement_provider::fill_cache(
     context::statement_cache& cache, const semantics::deferred_statement& def_stmt, const processing_status& status)
 {
@@ -103,7 +111,7 @@ void members_statement_provider::fill_cache(
 
         ptr = std::make_shared<semantics::statement_si_defer_done>(def_impl, std::move(op), std::move(rem));
     }
-    cache.insert(status.first.form, ptr);
+    cache.insert(cache_form(status), ptr);
 }
 
 context::shared_stmt_ptr members_statement_provider::preprocess_deferred(
@@ -116,10 +124,12 @@ context::shared_stmt_ptr members_statement_provider::preprocess_deferred(
     if (status.first.form == processing_form::DEFERRED)
         return cache.get_base();
 
-    if (!cache.contains(status.first.form))
+    const auto form = cache_form(status);
+
+    if (!cache.contains(form))
         fill_cache(cache, def_stmt, status);
 
-    return std::make_shared<resolved_statement_impl>(cache.get(status.first.form), status);
+    return std::make_shared<resolved_statement_impl>(cache.get(form), status);
 }
 
 } // namespace hlasm_plugin::parser_library::processing
-- 
2.43.0


From 60276dd51e4b0b82af9e0e78b71e9bce8344147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:08 +0000
Subject: [PATCH 07/71] fix: a macro definition overrides an earlier OPSYN of
 its name

---
 parser_library/src/context/hlasm_context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index ebac7d8..798b1bd 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -670,6 +670,9 @@ macro_def_ptr hlasm_context::add_macro(id_index name,
     label_storage labels,
     location definition_location)
 {
+    // the latest definition of an operation code is the valid one
+    opcode_mnemo_.erase(name);
+
     return macros_
         .insert_or_assign(name,
             std::make_shared<macro_definition>(name,
-- 
2.43.0


From 8b9d63c4c77c17d8c01f4998c418ac4b83c1fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:52 +0000
Subject: [PATCH 08/71] fix: keep the omitted last element of a sublist passed
 by a variable symbol

---
 .../src/processing/instruction_sets/macro_processor.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 9825778..247c213 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -126,6 +126,10 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
             ++begin;
             nests.pop();
 
+            // separator right before the closing parenthesis denotes omitted last element
+            if (data[begin - 2] == ',')
+                macro_data.top().push_back(std::make_unique<context::macro_param_data_dummy>());
+
             auto vec = std::move(macro_data.top());
             macro_data.pop();
 
-- 
2.43.0


From 5d18cd678f9948cd85c38f90d5c844c1b30fd4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 09/71] fix: register the sequence symbol of a macro call in
 open code

---
 .../src/processing/instruction_sets/macro_processor.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 247c213..2cd04d6 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -29,6 +29,12 @@ macro_processor::macro_processor(
 
 void macro_processor::process(context::shared_stmt_ptr stmt)
 {
+    if (const auto& label = stmt->access_resolved()->label_ref(); label.type == semantics::label_si_type::SEQ)
+    {
+        const auto& symbol = std::get<semantics::seq_sym>(label.value);
+        branch_provider.register_sequence_symbol(symbol.name, symbol.symbol_range);
+    }
+
     auto args = get_args(*stmt->access_resolved());
 
     hlasm_ctx.enter_macro(
-- 
2.43.0


From 1b2105946de95ae6100410d85368b5b699004bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:35 +0000
Subject: [PATCH 10/71] fix: take the type attribute of the subscripted element
 of a SETC array

---
 parser_library/src/context/hlasm_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index 798b1bd..892c4dd 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -601,7 +601,7 @@ C_t hlasm_context::get_type_attr(var_sym_ptr var_symbol, const std::vector<size_
         if (offset.empty())
             value = setc_sym->get_value();
         else
-            value = setc_sym->get_value(offset.front());
+            value = setc_sym->get_value(offset.front() - 1);
     }
     else if (auto mac_par = var_symbol->access_macro_param_base())
     {
-- 
2.43.0


From 19a78526a56130b8381eed9218118746cdb8b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:02 +0000
Subject: [PATCH 11/71] fix: SLA keeps the sign of its left operand

---
 .../src/expressions/conditional_assembly/ca_operator_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index ff4b809..9f4d32a 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -130,7 +130,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
     switch (shift)
     {
         case ca_expr_ops::SLA:
-            result = (unsigned_lhs << shift_part) | sign_bit;
+            result = ((unsigned_lhs << shift_part) & ~(1U << 31)) | sign_bit;
             break;
         case ca_expr_ops::SLL:
             result = unsigned_lhs << shift_part;
-- 
2.43.0


From c40d5d2a1a527ba052fb09f22f3705ffb8434102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:27 +0000
Subject: [PATCH 12/71] fix: substitute variable symbols in an operand naming
 an unknown keyword parameter

---
 .../src/processing/instruction_sets/macro_processor.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 2cd04d6..9949a23 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -273,7 +273,7 @@ void macro_processor::get_keyword_arg(const resolved_statement& statement,
         auto name = chain[0]->access_str()->value;
 
         args.push_back({ std::make_unique<context::macro_param_data_single>(
-                             name + "=" + semantics::concatenation_point::to_string(chain.begin() + 2, chain.end())),
+                             name + "=" + semantics::concatenation_point::evaluate(chain.begin() + 2, chain.end(), eval_ctx)),
             nullptr });
     }
     else
-- 
2.43.0


From 15596e9c0861adf1d73bd6360a5546d3316ebe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 13/71] fix: lookahead recognises MACRO, MEND and COPY
 statements that carry a sequence symbol

---
 parser_library/src/parsing/grammar/lookahead_rules.g4 | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/grammar/lookahead_rules.g4 b/parser_library/src/parsing/grammar/lookahead_rules.g4
index cf65fdb..eaf932d 100644
--- a/parser_library/src/parsing/grammar/lookahead_rules.g4
+++ b/parser_library/src/parsing/grammar/lookahead_rules.g4
@@ -16,7 +16,15 @@
 parser grammar lookahead_rules; 
 
 look_lab_instr  returns [std::optional<std::string> op_text, range op_range]
-	: seq_symbol ~EOLLN* EOLLN
+	: seq_symbol SPACE instruction operand_field_rest EOLLN
+	{
+		collector.set_label_field($seq_symbol.ss,provider.get_range($seq_symbol.ctx));
+		set_source_indices($seq_symbol.ctx->getStart(), $EOLLN);
+
+		$op_text = $operand_field_rest.ctx->getText();
+		$op_range = provider.get_range($operand_field_rest.ctx);
+	}
+	| seq_symbol ~EOLLN* EOLLN
 	{
 		collector.set_label_field($seq_symbol.ss,provider.get_range($seq_symbol.ctx));
 		collector.set_instruction_field(provider.get_range($seq_symbol.ctx));
-- 
2.43.0


From 3371c7cfacaffb99940f1afc87b5be077a334ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:22 +0000
Subject: [PATCH 14/71] fix: AIF with attribute references in several operands
 is not parsed as one operand

---
 parser_library/src/parsing/grammar/operand_field_rules.g4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/parsing/grammar/operand_field_rules.g4 b/parser_library/src/parsing/grammar/operand_field_rules.g4
index d1f9b7d..2d91600 100644
--- a/parser_library/src/parsing/grammar/operand_field_rules.g4
+++ b/parser_library/src/parsing/grammar/operand_field_rules.g4
@@ -205,8 +205,8 @@ cont_body_ca returns [op_rem line]
 	};
 
 alt_op_list_comma_o_ca returns [std::vector<operand_ptr> operands]
-	:
-	| alt_op_list_comma_ca													{$operands = std::move($alt_op_list_comma_ca.operands);};
+	: alt_op_list_comma_ca													{$operands = std::move($alt_op_list_comma_ca.operands);}
+	|;
 
 alt_op_list_comma_ca returns [std::vector<operand_ptr> operands]
 	: alt_operand_ca comma													{$operands.push_back(std::move($alt_operand_ca.op)); }
-- 
2.43.0


From b2bb80314f67baa9fdd0e27627c36f3beb44bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:44 +0000
Subject: [PATCH 15/71] fix: lookahead stopped at a COPY statement resumes at
 the start of the copied member

---
 parser_library/src/processing/processing_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/processing_manager.cpp b/parser_library/src/processing/processing_manager.cpp
index 371a6fa..90fc7ee 100644
--- a/parser_library/src/processing/processing_manager.cpp
+++ b/parser_library/src/processing/processing_manager.cpp
@@ -193,7 +193,8 @@ void processing_manager::start_lookahead(lookahead_start_data start)
 
 void processing_manager::finish_lookahead(lookahead_processing_result result)
 {
-    lookahead_stop_ = hlasm_ctx_.current_source().create_snapshot();
+    // everything up to the end of the current statement was already passed
+    lookahead_stop_ = hlasm_ctx_.get_end_snapshot().second;
 
     if (result.action == lookahead_action::SEQ)
     {
-- 
2.43.0


From e8ab8a66c82bfde47b269489cbb901db8b62eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:06 +0000
Subject: [PATCH 16/71] fix: COPY in a nested macro definition keeps its
 sequence symbol

---
 .../processing/statement_processors/macrodef_processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index 407e4b9..76be22f 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -361,10 +361,13 @@ void macrodef_processor::process_MEND()
 
 void macrodef_processor::process_COPY(const resolved_statement& statement)
 {
-    // substitute copy for anop to not be processed again
+    // substitute copy for anop to not be processed again, keep its sequence symbol for nested macro definitions
+    const auto& label = statement.label_ref();
 
     auto empty_sem = std::make_shared<semantics::statement_si>(statement.stmt_range_ref(),
-        semantics::label_si(statement.stmt_range_ref()),
+        label.type == semantics::label_si_type::SEQ
+            ? semantics::label_si(label.field_range, std::get<semantics::seq_sym>(label.value))
+            : semantics::label_si(statement.stmt_range_ref()),
         semantics::instruction_si(statement.stmt_range_ref()),
         semantics::operands_si(statement.stmt_range_ref(), {}),
         semantics::remarks_si(statement.stmt_range_ref(), {}));
-- 
2.43.0


From 2a8eba8ab0d0a78e88bdb360c9dd94de30100ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:01 +0000
Subject: [PATCH 17/71] fix: an apostrophe of an attribute reference does not
 open a character string

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4       | 2 +-
 parser_library/src/parsing/grammar/operand_field_rules.g4 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 50d81c0..05daa8f 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -312,7 +312,7 @@ substring returns [expressions::ca_string::substring_t value]
 	|;
 
 ca_string_b returns [ca_expr_ptr ca_expr]
-	: ca_dupl_factor (apostrophe|attr) string_ch_v_c (apostrophe|attr) substring
+	: ca_dupl_factor apostrophe string_ch_v_c (apostrophe|attr) substring
 	{
 		auto r = provider.get_range($ca_dupl_factor.ctx->getStart(), $substring.ctx->getStop());
 		$ca_expr = std::make_unique<expressions::ca_string>(std::move($string_ch_v_c.chain), std::move($ca_dupl_factor.value), std::move($substring.value), r);
diff --git a/parser_library/src/parsing/grammar/operand_field_rules.g4 b/parser_library/src/parsing/grammar/operand_field_rules.g4
index 2d91600..d1f9b7d 100644
--- a/parser_library/src/parsing/grammar/operand_field_rules.g4
+++ b/parser_library/src/parsing/grammar/operand_field_rules.g4
@@ -205,8 +205,8 @@ cont_body_ca returns [op_rem line]
 	};
 
 alt_op_list_comma_o_ca returns [std::vector<operand_ptr> operands]
-	: alt_op_list_comma_ca													{$operands = std::move($alt_op_list_comma_ca.operands);}
-	|;
+	:
+	| alt_op_list_comma_ca													{$operands = std::move($alt_op_list_comma_ca.operands);};
 
 alt_op_list_comma_ca returns [std::vector<operand_ptr> operands]
 	: alt_operand_ca comma													{$operands.push_back(std::move($alt_operand_ca.op)); }
-- 
2.43.0


From 15fac534e22c5322370a6ac584ae74a53ae19d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:04 +0000
Subject: [PATCH 18/71] fix: operands of an OPSYN alias of a conditional
 assembly instruction in a macro or copy member are parsed

---
 .../src/parsing/grammar/operand_field_rules.g4      | 13 +++++++++++++
 parser_library/src/parsing/parser_impl.cpp          |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/parser_library/src/parsing/grammar/operand_field_rules.g4 b/parser_library/src/parsing/grammar/operand_field_rules.g4
index d1f9b7d..82b9c32 100644
--- a/parser_library/src/parsing/grammar/operand_field_rules.g4
+++ b/parser_library/src/parsing/grammar/operand_field_rules.g4
@@ -377,5 +377,18 @@ op_rem_body_mac_r returns [op_rem line]
 	} EOLLN EOF
 	| EOLLN EOF;
 
+//////////////////////////////////////// ca_r
+
+op_rem_body_ca_r returns [op_rem line]
+	: op_rem_body_alt_ca
+	{
+		$line = std::move($op_rem_body_alt_ca.line);
+	} EOLLN EOF
+	| remark_o 
+	{
+		$line.remarks = $remark_o.value ? remark_list{*$remark_o.value} : remark_list{};
+	} EOLLN EOF
+	| EOLLN EOF;
+
 op_rem_body_noop_r
 	: remark_o EOLLN EOF;
\ No newline at end of file
diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 4278dd8..de6257b 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -166,6 +166,9 @@ std::pair<semantics::operands_si, semantics::remarks_si> parser_impl::parse_oper
             case processing::processing_form::DAT:
                 line = std::move(h.parser->op_rem_body_dat_r()->line);
                 break;
+            case processing::processing_form::CA:
+                line = std::move(h.parser->op_rem_body_ca_r()->line);
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 407b1cd230fdec69fbdbe75020110b7911a581ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:11 +0000
Subject: [PATCH 19/71] fix: EQU to an address behind storage of yet unknown
 length keeps the constant part of the expression

---
 .../src/processing/instruction_sets/asm_processor.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 60714b0..03a938f 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -166,7 +166,8 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
                     }
                 }
                 else
-                    create_symbol(stmt.stmt_range_ref(), symbol_name, *holder.unresolved_address, attrs);
+                    create_symbol(
+                        stmt.stmt_range_ref(), symbol_name, expr_op->expression->resolve(hlasm_ctx.ord_ctx), attrs);
             }
         }
     }
-- 
2.43.0


From 3ad4d306fcfd0a1f1f958337db32bb1d9cb32328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:11 +0000
Subject: [PATCH 20/71] fix: location counter keeps the storage behind all its
 unknown parts when an ORG is resolved

---
 .../src/context/ordinary_assembly/location_counter_data.cpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
index d1f4553..8efb205 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
@@ -50,6 +50,7 @@ void location_counter_data::append_storage(int st)
 void location_counter_data::append_data(location_counter_data data)
 {
     append_storage(data.unknown_parts.front().storage_after);
+    storage += data.storage - data.unknown_parts.front().storage_after; // storage after the remaining unknown parts
 
     data.unknown_parts.pop_front(); // the first unknown part is substitiuted by this data
 
-- 
2.43.0


From 7b6c214e4d362676ac0f071ff55a33567d5c8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:11 +0000
Subject: [PATCH 21/71] fix: a location counter starts behind the highest
 address of the previous one

---
 .../context/ordinary_assembly/location_counter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 792a08f..7e6e355 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -22,9 +22,19 @@
 
 using namespace hlasm_plugin::parser_library::context;
 
-bool location_counter::has_unresolved_spaces() const { return !!org_data_.back().fist_space(); }
+bool location_counter::has_unresolved_spaces() const
+{
+    return std::any_of(org_data_.begin(), org_data_.end(), [](const auto& data) { return !!data.fist_space(); });
+}
 
-size_t location_counter::storage() const { return curr_data().storage; }
+size_t location_counter::storage() const
+{
+    // the highest value the location counter has reached
+    return std::max_element(org_data_.begin(),
+        org_data_.end(),
+        [](const auto& l, const auto& r) { return l.storage < r.storage; })
+        ->storage;
+}
 
 location_counter::location_counter(id_index name, const section& owner, const loctr_kind kind, id_storage& ids)
     : switched_(nullptr)
-- 
2.43.0


From 9e4b7dc4f432fb826843105a124b2603b521fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:11 +0000
Subject: [PATCH 22/71] fix: ORG by a later defined amount relative to an
 unresolved ORG target keeps the amount

---
 .../src/context/ordinary_assembly/location_counter.cpp        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 7e6e355..4f29b83 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -259,7 +259,9 @@ std::variant<space_ptr, address> location_counter::restore_from_unresolved_value
     size_t tmp_idx = org_data_.size() - 1;
     space_ptr new_sp;
 
-    if (curr_data().fist_space() && curr_data().fist_space()->kind == space_kind::LOCTR_SET)
+    // the space can stand for the new value only when nothing follows it
+    if (curr_data().fist_space() && curr_data().fist_space()->kind == space_kind::LOCTR_SET
+        && curr_data().unknown_parts.size() == 1 && curr_data().last_storage() == 0)
         new_sp = curr_data().fist_space();
 
     address new_addr = current_address();
-- 
2.43.0


From 27e472efafb1ea20b47f2ccd5748f0526d63cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:38 +0000
Subject: [PATCH 23/71] fix: ORG without operand in a further location counter
 does not count the start of the counter twice

---
 .../context/ordinary_assembly/location_counter.cpp | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 4f29b83..5fdd171 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -151,21 +151,7 @@ std::pair<space_ptr, std::vector<address>> location_counter::set_available_value
     for (auto& entry : org_data_)
         addr_arr.emplace_back(address::base { &owner }, entry.storage, entry.spaces());
 
-    space_ptr loctr_start = nullptr;
-    if (kind == loctr_kind::NONSTARTING)
-    {
-        loctr_start = addr_arr.front().spaces().front().first;
-        assert(loctr_start->kind == space_kind::LOCTR_BEGIN);
-        for (auto& addr : addr_arr)
-        {
-            if (addr.spaces().front().first->kind == space_kind::LOCTR_BEGIN)
-                addr.spaces().erase(addr.spaces().begin());
-        }
-    }
-
     org_data_.emplace_back(loctr_data_kind::POTENTIAL_MAX);
-    if (kind == loctr_kind::NONSTARTING)
-        curr_data().append_space(std::move(loctr_start));
     (void)register_space(context::no_align, space_kind::LOCTR_MAX);
 
     return std::make_pair(curr_data().last_space(), std::move(addr_arr));
-- 
2.43.0


From 17c5a2b3b0b9db8e896acd8d484ef7cecc881639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:06 +0000
Subject: [PATCH 24/71] fix: finishing the requests of a server waits for its
 running request even when no other is queued and leaves other servers alone

---
 language_server/src/request_manager.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 3378790..7a540ea 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -114,10 +114,8 @@ void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
 
-    if (requests_.empty())
-        return;
-
-    if (cancel_)
+    // a running request of a different server is not affected
+    if (const auto* running = currently_running_server_.load(); cancel_ && (!running || running == to_finish))
         *cancel_ = true;
 
     // if currently running request runs on the server we are about to finish, wait for that request to finish.
-- 
2.43.0


From 4faa0e117ddbf0994f8b352a7fdb990c33e6edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:51 +0000
Subject: [PATCH 25/71] fix: a text document message without a document does
 not end the session

---
 language_server/src/request_manager.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 7a540ea..b947bfe 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -45,7 +45,8 @@ void request_manager::add_request(server* server, json message)
         // if the new file is the same as the currently running one, cancel the old one
         if (currently_running_file_ == file && currently_running_file_ != "" && is_parsing_required)
         {
-            *cancel_ = true;
+            if (cancel_)
+                *cancel_ = true;
             // mark redundant requests as non valid
             for (auto& req : requests_)
             {
@@ -144,9 +145,9 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     constexpr const char* didChange = "textDocument/didChange";
 
     auto found = r.find("method");
-    if (found == r.end())
+    if (found == r.end() || !found->is_string())
         return "";
-    auto method = r["method"].get<std::string>();
+    auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
         if (is_parsing_required)
@@ -156,7 +157,17 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
             else
                 *is_parsing_required = false;
         }
-        return r["params"]["textDocument"]["uri"].get<std::string>();
+        // malformed messages are refused by the server that executes them
+        auto params = r.find("params");
+        if (params == r.end())
+            return "";
+        auto document = params->find("textDocument");
+        if (document == params->end())
+            return "";
+        auto uri = document->find("uri");
+        if (uri == document->end() || !uri->is_string())
+            return "";
+        return uri->get<std::string>();
     }
     return std::string();
 }
\ No newline at end of file
-- 
2.43.0


From c129cc8a9a3d5f9e1668aa9c9c5f998ca84d4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 26/71] fix: a request or notification with missing parameters
 is refused instead of reading a missing JSON element

---
 language_server/src/dap/dap_feature.cpp       | 18 +++++++--------
 language_server/src/feature.cpp               |  6 ++---
 .../src/lsp/feature_language_features.cpp     | 22 +++++++++----------
 .../src/lsp/feature_text_synchronization.cpp  | 22 +++++++++----------
 .../src/lsp/feature_workspace_folders.cpp     | 18 +++++++--------
 5 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index e8216e4..c1d5d4c 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -97,9 +97,9 @@ void dap_feature::on_initialize(const json& requested_seq, const json& args)
 {
     response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
 
-    line_1_based_ = args["linesStartAt1"].get<bool>() ? 1 : 0;
-    column_1_based_ = args["columnsStartAt1"].get<bool>() ? 1 : 0;
-    path_format_ = args["pathFormat"].get<std::string>() == "path" ? path_format::PATH : path_format::URI;
+    line_1_based_ = args.at("linesStartAt1").get<bool>() ? 1 : 0;
+    column_1_based_ = args.at("columnsStartAt1").get<bool>() ? 1 : 0;
+    path_format_ = args.at("pathFormat").get<std::string>() == "path" ? path_format::PATH : path_format::URI;
 
     debugger.emplace();
 
@@ -122,8 +122,8 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
         return;
 
     // wait for configurationDone?
-    std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
-    bool stop_on_entry = args["stopOnEntry"].get<bool>();
+    std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
+    bool stop_on_entry = args.at("stopOnEntry").get<bool>();
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
@@ -138,14 +138,14 @@ void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 
     json breakpoints_verified = json::array();
 
-    std::string source = convert_path(args["source"]["path"].get<std::string>(), path_format_);
+    std::string source = convert_path(args.at("source").at("path").get<std::string>(), path_format_);
     std::vector<parser_library::breakpoint> breakpoints;
 
     if (auto bpoints_found = args.find("breakpoints"); bpoints_found != args.end())
     {
         for (auto& bp_json : bpoints_found.value())
         {
-            breakpoints.emplace_back(bp_json["line"].get<json::number_unsigned_t>() - line_1_based_);
+            breakpoints.emplace_back(bp_json.at("line").get<json::number_unsigned_t>() - line_1_based_);
             breakpoints_verified.push_back(json { { "verified", true } });
         }
     }
@@ -208,7 +208,7 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 
     nlohmann::json scopes_json = json::array();
 
-    for (const auto& s : debugger->scopes(args["frameId"].get<json::number_unsigned_t>()))
+    for (const auto& s : debugger->scopes(args.at("frameId").get<json::number_unsigned_t>()))
     {
         auto scope = parser_library::scope(s);
         json scope_json = json { { "name", std::string_view(scope.name) },
@@ -248,7 +248,7 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 
     nlohmann::json variables_json = json::array();
 
-    for (auto var : debugger->variables(args["variablesReference"]))
+    for (auto var : debugger->variables(args.at("variablesReference")))
     {
         std::string type;
         switch (var.type)
diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index ca4f2f3..3b92ce9 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -105,13 +105,13 @@ std::string feature::path_to_uri(std::string_view path)
 
 parser_library::range feature::parse_range(const json& range_json)
 {
-    return { parse_position(range_json["start"]), parse_position(range_json["end"]) };
+    return { parse_position(range_json.at("start")), parse_position(range_json.at("end")) };
 }
 
 parser_library::position feature::parse_position(const json& position_json)
 {
-    return { position_json["line"].get<nlohmann::json::number_unsigned_t>(),
-        position_json["character"].get<nlohmann::json::number_unsigned_t>() };
+    return { position_json.at("line").get<nlohmann::json::number_unsigned_t>(),
+        position_json.at("character").get<nlohmann::json::number_unsigned_t>() };
 }
 
 json feature::range_to_json(const parser_library::range& range)
diff --git a/language_server/src/lsp/feature_language_features.cpp b/language_server/src/lsp/feature_language_features.cpp
index 756b921..f53a24a 100644
--- a/language_server/src/lsp/feature_language_features.cpp
+++ b/language_server/src/lsp/feature_language_features.cpp
@@ -78,9 +78,9 @@ void feature_language_features::initialize_feature(const json&)
 
 void feature_language_features::definition(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
 
     auto definition_position_uri = ws_mngr_.definition(uri_to_path(document_uri).c_str(), pos);
@@ -93,9 +93,9 @@ void feature_language_features::definition(const json& id, const json& params)
 
 void feature_language_features::references(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
     json to_ret = json::array();
     auto references = ws_mngr_.references(uri_to_path(document_uri).c_str(), pos);
     for (size_t i = 0; i < references.size(); ++i)
@@ -108,9 +108,9 @@ void feature_language_features::references(const json& id, const json& params)
 }
 void feature_language_features::hover(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
 
     auto hover_list = ws_mngr_.hover(uri_to_path(document_uri).c_str(), pos);
@@ -166,11 +166,11 @@ json feature_language_features::get_markup_content(std::string_view content)
 
 void feature_language_features::completion(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
-    int trigger_kind_int = params["context"]["triggerKind"].get<int>();
+    int trigger_kind_int = params.at("context").at("triggerKind").get<int>();
     parser_library::completion_trigger_kind trigger_kind = (trigger_kind_int >= 1 && trigger_kind_int <= 3)
         ? (parser_library::completion_trigger_kind)trigger_kind_int
         : parser_library::completion_trigger_kind::invoked;
@@ -178,7 +178,7 @@ void feature_language_features::completion(const json& id, const json& params)
     // no trigger character
     char trigger_char = '\0';
     if (trigger_kind == parser_library::completion_trigger_kind::trigger_character)
-        trigger_char = params["context"]["triggerCharacter"].get<std::string>()[0];
+        trigger_char = params.at("context").at("triggerCharacter").get<std::string>()[0];
 
     auto completion_list = ws_mngr_.completion(uri_to_path(document_uri).c_str(), pos, trigger_char, trigger_kind);
     json to_ret = json::value_t::null;
@@ -236,7 +236,7 @@ json convert_tokens_to_num_array(const std::vector<parser_library::token_info>&
 
 void feature_language_features::semantic_tokens(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
 
     auto tokens = ws_mngr_.semantic_tokens(uri_to_path(document_uri).c_str());
     json num_array = convert_tokens_to_num_array(tokens);
diff --git a/language_server/src/lsp/feature_text_synchronization.cpp b/language_server/src/lsp/feature_text_synchronization.cpp
index 2ac129a..eb8a6cd 100644
--- a/language_server/src/lsp/feature_text_synchronization.cpp
+++ b/language_server/src/lsp/feature_text_synchronization.cpp
@@ -55,10 +55,10 @@ void feature_text_synchronization::initialize_feature(const json&)
 
 void feature_text_synchronization::on_did_open(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
-    std::string text = text_doc["text"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
+    std::string text = text_doc.at("text").get<std::string>();
 
     auto path = uri_to_path(doc_uri);
 
@@ -73,19 +73,19 @@ void feature_text_synchronization::on_did_open(const json&, const json& params)
 
 void feature_text_synchronization::on_did_change(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
 
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
 
-    json content_changes = params["contentChanges"];
+    json content_changes = params.at("contentChanges");
 
     std::vector<parser_library::document_change> changes;
     std::vector<std::string> texts(content_changes.size());
     size_t i = 0;
     for (auto& ch : content_changes)
     {
-        texts[i] = ch["text"].get<std::string>();
+        texts[i] = ch.at("text").get<std::string>();
 
         auto range_it = ch.find("range");
         if (range_it == ch.end())
@@ -94,7 +94,7 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
         }
         else
         {
-            changes.emplace_back(parse_range(ch["range"]), texts[i].c_str(), texts[i].size());
+            changes.emplace_back(parse_range(ch.at("range")), texts[i].c_str(), texts[i].size());
         }
 
         ++i;
@@ -104,7 +104,7 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
 
 void feature_text_synchronization::on_did_close(const json&, const json& params)
 {
-    std::string uri = params["textDocument"]["uri"].get<std::string>();
+    std::string uri = params.at("textDocument").at("uri").get<std::string>();
 
     ws_mngr_.did_close_file(uri_to_path(uri).c_str());
 }
diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index e3067e3..b7e2303 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -57,7 +57,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
     send_configuration_request();
 
     bool ws_folders_support = false;
-    auto capabs = initialize_params["capabilities"];
+    auto capabs = initialize_params.at("capabilities");
     auto ws = capabs.find("workspace");
     if (ws != capabs.end())
     {
@@ -68,7 +68,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
     if (ws_folders_support)
     {
-        add_workspaces(initialize_params["workspaceFolders"]);
+        add_workspaces(initialize_params.at("workspaceFolders"));
         return;
     }
 
@@ -92,8 +92,8 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
 void feature_workspace_folders::on_did_change_workspace_folders(const json&, const json& params)
 {
-    const auto& added = params["event"]["added"];
-    const auto& removed = params["event"]["removed"];
+    const auto& added = params.at("event").at("added");
+    const auto& removed = params.at("event").at("removed");
 
     remove_workspaces(removed);
     add_workspaces(added);
@@ -103,8 +103,8 @@ void feature_workspace_folders::add_workspaces(const json& added)
 {
     for (auto& it : added)
     {
-        const std::string& name = it["name"].get<std::string>();
-        std::string uri = it["uri"].get<std::string>();
+        const std::string& name = it.at("name").get<std::string>();
+        std::string uri = it.at("uri").get<std::string>();
 
         add_workspace(name, uri_to_path(uri));
     }
@@ -113,7 +113,7 @@ void feature_workspace_folders::remove_workspaces(const json& removed)
 {
     for (auto ws : removed)
     {
-        std::string uri = ws["uri"].get<std::string>();
+        std::string uri = ws.at("uri").get<std::string>();
 
         ws_mngr_.remove_workspace(uri_to_path(uri).c_str());
     }
@@ -125,13 +125,13 @@ void feature_workspace_folders::add_workspace(const std::string& name, const std
 
 void feature_workspace_folders::did_change_watched_files(const json&, const json& params)
 {
-    std::vector<json> changes = params["changes"];
+    std::vector<json> changes = params.at("changes");
     std::vector<std::string> paths;
     for (auto& change : changes)
     {
         try
         {
-            paths.push_back(uri_to_path(change["uri"].get<std::string>()));
+            paths.push_back(uri_to_path(change.at("uri").get<std::string>()));
         }
         catch (const std::system_error& e)
         {
-- 
2.43.0


From d9ef51134b7d85197eabfeb7eb5839fb9f01d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 27/71] fix: a malformed response of the client does not end
 the server

---
 language_server/src/lsp/lsp_server.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index 785d99c..055fcde 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -65,7 +65,14 @@ void server::message_received(const json& message)
 
         method handler = handler_found->second;
         request_handlers_.erase(handler_found);
-        handler(id_found.value(), result_found.value());
+        try
+        {
+            handler(id_found.value(), result_found.value());
+        }
+        catch (const std::exception& e)
+        {
+            LOG_ERROR(e.what());
+        }
         return;
     }
     else if (error_result_found != message.end())
@@ -75,7 +82,8 @@ void server::message_received(const json& message)
         if (message_found != error_result_found->end())
             warn_message = message_found->dump();
         else
-            warn_message = "Request with id " + id_found->dump() + " returned with unspecified error.";
+            warn_message = "Request with id " + (id_found != message.end() ? id_found->dump() : "null")
+                + " returned with unspecified error.";
         LOG_WARNING(warn_message);
         return;
     }
-- 
2.43.0


From fad39be27077a8a11d62c63da218c26eea666b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:02 +0000
Subject: [PATCH 28/71] fix: the result of the server loop does not depend on
 when the exit notification is executed

---
 language_server/src/dispatcher.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/language_server/src/dispatcher.cpp b/language_server/src/dispatcher.cpp
index 81a0665..10e34e6 100644
--- a/language_server/src/dispatcher.cpp
+++ b/language_server/src/dispatcher.cpp
@@ -31,33 +31,23 @@ void dispatcher::reply(const json& message) { channel.write(message); }
 
 int dispatcher::run_server_loop()
 {
-    int ret = 0;
     for (;;)
     {
         auto message = channel.read();
         if (!message.has_value())
-        {
-            ret = 1;
             break;
-        }
 
         req_mngr_.add_request(&server_, std::move(message).value());
 
-        // If exit notification came without prior shutdown request, return error 1.
         if (server_.is_exit_notification_received())
-        {
-            if (server_.is_shutdown_request_received())
-                break;
-            else
-            {
-                ret = 1;
-                break;
-            }
-        }
+            break;
     }
 
     req_mngr_.finish_server_requests(&server_);
-    return ret;
+
+    // The messages are executed asynchronously, the result is known only now.
+    // If exit notification came without prior shutdown request, or did not come at all, return error 1.
+    return server_.is_exit_notification_received() && server_.is_shutdown_request_received() ? 0 : 1;
 }
 
 } // namespace hlasm_plugin::language_server
-- 
2.43.0


From 1fd43e3fb0aac02e9adcffe9f2991c89f1380d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:57 +0000
Subject: [PATCH 29/71] fix: contents of files on disk are used once they are
 closed in the editor or reported as changed

---
 parser_library/src/workspaces/file_impl.cpp | 8 +++++++-
 parser_library/src/workspaces/workspace.cpp | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 5a2a487..8fd939f 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -148,7 +148,13 @@ void file_impl::did_change(std::string new_text)
     ++version_;
 }
 
-void file_impl::did_close() { editing_ = false; }
+void file_impl::did_close()
+{
+    // changes that were not saved are gone, the contents are those of the disk again
+    if (editing_)
+        up_to_date_ = false;
+    editing_ = false;
+}
 
 const std::string& file_impl::get_text_ref() { return text_; }
 
diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1afd391..eaa1556 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -238,10 +238,11 @@ void workspace::did_close_file(const std::string& file_uri)
 {
     diag_suppress_notified_[file_uri] = false;
     // first check whether the file is a dependency
-    // if so, simply close it, no other action is needed
+    // if so, close it and process its dependants again, its contents may have been changed and not saved
     if (is_dependency_(file_uri))
     {
         file_manager_.did_close_file(file_uri);
+        parse_file(file_uri);
         return;
     }
 
@@ -266,6 +267,9 @@ void workspace::did_change_file(const std::string file_uri, const document_chang
 void workspace::did_change_watched_files(const std::string& file_uri)
 {
     refresh_libraries();
+    // the contents on the disk changed
+    if (auto file = file_manager_.find(file_uri))
+        file->update_and_get_bad();
     parse_file(file_uri);
 }
 
-- 
2.43.0


From c64c572d840c722c77e2c09fe23c90d4af098e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:30 +0000
Subject: [PATCH 30/71] fix: workspaces are identified by their path: removal
 works, folders may share a name, files outside do not match

---
 parser_library/src/workspace_manager_impl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index 7b087d3..fc7bdfc 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -54,7 +54,7 @@ public:
 
     void add_workspace(std::string name, std::string uri)
     {
-        auto ws = workspaces_.emplace(name, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
+        auto ws = workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
         ws.first->second.set_message_consumer(message_consumer_);
         ws.first->second.open();
 
@@ -215,7 +215,7 @@ private:
         for (auto& ws : workspaces_)
         {
             size_t match = prefix_match(document_uri, ws.second.uri());
-            if (match > max && match >= ws.first.size())
+            if (match > max && match == ws.first.size() && ends_path_component(document_uri, match))
             {
                 max = match;
                 max_ws = &ws.second;
@@ -252,6 +252,12 @@ private:
         }
     }
 
+    static bool ends_path_component(const std::string& path, size_t size)
+    {
+        static constexpr auto is_separator = [](char c) { return c == '/' || c == '\\'; };
+        return size == path.size() || is_separator(path[size]) || is_separator(path[size - 1]);
+    }
+
     size_t prefix_match(const std::string& first, const std::string& second) const
     {
         size_t match = 0;
-- 
2.43.0


From 5338ddf850ce48270e40d2349551d8c693929b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:49 +0000
Subject: [PATCH 31/71] fix: language features on a file that has not been
 analyzed crashed

---
 .../src/workspaces/processor_file_impl.cpp    | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index d7f6cd1..3df3077 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -95,16 +95,46 @@ bool processor_file_impl::parse_info_updated()
 
 const std::set<std::string>& processor_file_impl::dependencies() { return dependencies_; }
 
+namespace {
+// answers for files that have not been analyzed
+struct empty_feature_provider final : lsp::feature_provider
+{
+    location definition(const std::string& document_uri, position pos) const override { return { pos, document_uri }; }
+    location_list references(const std::string&, position) const override { return {}; }
+    lsp::hover_result hover(const std::string&, position) const override { return {}; }
+    lsp::completion_list_s completion(const std::string&, position, char, completion_trigger_kind) const override
+    {
+        return {};
+    }
+};
+
+const empty_feature_provider no_features;
+const semantics::lines_info no_hl_info;
+const performance_metrics no_metrics;
+} // namespace
+
 const semantics::lines_info& processor_file_impl::get_hl_info()
 {
+    if (!analyzer_)
+        return no_hl_info;
     return analyzer_->source_processor().semantic_tokens();
 }
 
-const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider() { return *analyzer_->context().lsp_ctx; }
+const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider()
+{
+    if (!analyzer_)
+        return no_features;
+    return *analyzer_->context().lsp_ctx;
+}
 
 const std::set<std::string>& processor_file_impl::files_to_close() { return files_to_close_; }
 
-const performance_metrics& processor_file_impl::get_metrics() { return analyzer_->get_metrics(); }
+const performance_metrics& processor_file_impl::get_metrics()
+{
+    if (!analyzer_)
+        return no_metrics;
+    return analyzer_->get_metrics();
+}
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
-- 
2.43.0


From bb4950e21b4c4c32b0d58e587ec9ca755b3f4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:07 +0000
Subject: [PATCH 32/71] fix: an unusable pgm_conf.json left programs assigned
 to processor groups that no longer existed

---
 parser_library/src/workspaces/workspace.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index eaa1556..2e5ac7d 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -343,6 +343,11 @@ bool workspace::load_and_process_config()
     if (!load_ok)
         return false;
 
+    // the previous configuration stays in effect unless both files can be used
+    proc_grps_.clear();
+    exact_pgm_conf_.clear();
+    regex_pgm_conf_.clear();
+
     // Extract extension list for compatibility reasons
     std::vector<std::string> macro_extensions_compatibility_list;
     for (const auto& wildcard : pgm_config.always_recognize)
@@ -431,7 +436,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(proc_grps_file->get_text()).get_to(proc_groups);
-        proc_grps_.clear();
         for (const auto& pg : proc_groups.pgroups)
             if (!pg.asm_options.valid())
                 config_diags_.push_back(diagnostic_s::error_W005(proc_grps_file->get_file_name(), pg.name));
@@ -452,8 +456,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(pgm_conf_file->get_text()).get_to(pgm_config);
-        exact_pgm_conf_.clear();
-        regex_pgm_conf_.clear();
     }
     catch (const nlohmann::json::exception&)
     {
-- 
2.43.0


From 3e17f118fecea825c0b0fa77865927630ee5446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:17 +0000
Subject: [PATCH 33/71] fix: diagnostics suppression also applies when a
 program is analyzed because of a configuration change

---
 parser_library/src/workspaces/workspace.cpp | 29 +++++++++++++--------
 parser_library/src/workspaces/workspace.h   |  1 +
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 2e5ac7d..60ac4b9 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -119,6 +119,20 @@ void workspace::delete_diags(processor_file_ptr file)
     notified_found.first->second = true;
 }
 
+void workspace::suppress_diags(processor_file_ptr file)
+{
+    // if there is no processor group assigned to the program, delete diagnostics that may have been created
+    if (cancel_ && cancel_->load()) // skip, if parsing was cancelled using the cancellation token
+        return;
+
+    const processor_group& grp = get_proc_grp_by_program(file->get_file_name());
+    file->collect_diags();
+    if (&grp == &implicit_proc_grp && (int64_t)file->diags().size() > get_config().diag_supress_limit)
+        delete_diags(file);
+    else
+        diag_suppress_notified_[file->get_file_name()] = false;
+}
+
 void workspace::show_message(const std::string& message)
 {
     if (message_consumer_)
@@ -160,7 +174,10 @@ void workspace::parse_file(const std::string& file_uri)
             {
                 auto found = file_manager_.find_processor_file(fname);
                 if (found)
+                {
                     found->parse(*this);
+                    suppress_diags(found);
+                }
             }
 
             for (auto fname : dependants_)
@@ -203,17 +220,7 @@ void workspace::parse_file(const std::string& file_uri)
         if (!f->dependencies().empty())
             dependants_.insert(f->get_file_name());
 
-
-        // if there is no processor group assigned to the program, delete diagnostics that may have been created
-        if (cancel_ && cancel_->load()) // skip, if parsing was cancelled using the cancellation token
-            continue;
-
-        const processor_group& grp = get_proc_grp_by_program(f->get_file_name());
-        f->collect_diags();
-        if (&grp == &implicit_proc_grp && (int64_t)f->diags().size() > get_config().diag_supress_limit)
-            delete_diags(f);
-        else
-            diag_suppress_notified_[f->get_file_name()] = false;
+        suppress_diags(f);
     }
 
     // second check after all dependants are there to close all files that used to be dependencies
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 667a27b..51217bf 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -159,6 +159,7 @@ private:
 
     std::vector<processor_file_ptr> find_related_opencodes(const std::string& document_uri) const;
     void delete_diags(processor_file_ptr file);
+    void suppress_diags(processor_file_ptr file);
 
     void show_message(const std::string& message);
 
-- 
2.43.0


From da76913b984266c03d4ac2ec25c49923b4a538c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 34/71] fix: a plus sign in a wildcarded program name stands
 for itself

---
 parser_library/src/workspaces/wildcard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/wildcard.cpp b/parser_library/src/workspaces/wildcard.cpp
index 1d9c232..b34b9a5 100644
--- a/parser_library/src/workspaces/wildcard.cpp
+++ b/parser_library/src/workspaces/wildcard.cpp
@@ -19,9 +19,9 @@
 namespace hlasm_plugin::parser_library::workspaces {
 namespace {
 // used for wildcard to regex conversions
-const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.)");
+const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.|\\+)");
 const std::regex question("\\?");
-const std::regex nongreedy("(\\*|\\+)");
+const std::regex nongreedy("(\\*)");
 const std::regex slash("\\/");
 } // namespace
 
-- 
2.43.0


From d8d29be6b8ea38dd66cf94515f9e6f8b514eeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:40 +0000
Subject: [PATCH 35/71] fix: difference of relocatable terms with unequal
 multiplicity

---
 parser_library/src/context/ordinary_assembly/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 12f60c5..ca6fa37 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -241,7 +241,7 @@ std::vector<T> merge_entries(const std::vector<T>& lhs, const std::vector<T>& rh
             if (operation == op::ADD)
                 count = (*it)->second + entry.second;
             else
-                count = (*it)->second - entry.second;
+                count = entry.second - (*it)->second;
 
             if (count != 0)
                 res.emplace_back(entry.first, count);
-- 
2.43.0


From 24d51d0c0d199d55aa6f63095d1a261a067c88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:40 +0000
Subject: [PATCH 36/71] fix: count resolved spaces with their multiplicity in
 an address

---
 .../src/context/ordinary_assembly/address.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index ca6fa37..9e731b1 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -128,7 +128,7 @@ int get_space_offset(space_ptr sp)
     {
         offset += sp->resolved_length;
         for (const auto& s : sp->resolved_ptrs)
-            offset += get_space_offset(s.first);
+            offset += s.second * get_space_offset(s.first);
     }
     return offset;
 }
@@ -137,7 +137,7 @@ int address::offset() const
 {
     int offs = offset_;
     for (const auto& s : spaces_)
-        offs += get_space_offset(s.first);
+        offs += s.second * get_space_offset(s.first);
     return offs;
 }
 
@@ -158,18 +158,20 @@ void insert(const address::space_entry& sp,
 
 int get_unresolved_spaces(const std::vector<address::space_entry>& spaces,
     std::unordered_map<space_ptr, size_t>& normalized_map,
-    std::vector<address::space_entry>& normalized_spaces)
+    std::vector<address::space_entry>& normalized_spaces,
+    int multiplier = 1)
 {
     int offset = 0;
     for (const auto& sp : spaces)
     {
         if (sp.first->resolved())
         {
-            offset += sp.first->resolved_length;
-            offset += get_unresolved_spaces(sp.first->resolved_ptrs, normalized_map, normalized_spaces);
+            offset += multiplier * sp.second * sp.first->resolved_length;
+            offset += get_unresolved_spaces(
+                sp.first->resolved_ptrs, normalized_map, normalized_spaces, multiplier * sp.second);
         }
         else
-            insert(sp, normalized_map, normalized_spaces);
+            insert(address::space_entry(sp.first, multiplier * sp.second), normalized_map, normalized_spaces);
     }
 
     return offset;
-- 
2.43.0


From 34aff938d7358dec2397e7c441621eb3cd096658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:40 +0000
Subject: [PATCH 37/71] fix: absolute term minus a relocatable term

---
 parser_library/src/context/ordinary_assembly/symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index 79bc33f..aaf236c 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -72,7 +72,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
         if (value.value_kind() == symbol_value_kind::ABS)
             return get_abs() - value.get_abs();
         else
-            return value.get_reloc() - get_abs();
+            return -value.get_reloc() + get_abs();
     }
     else if (value_kind() == symbol_value_kind::RELOC)
     {
-- 
2.43.0


From d0da6c8441fda8d4c1ce407b88685c2a55a6fdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:01 +0000
Subject: [PATCH 38/71] fix: an unresolved location counter stopped the layout
 of the other sections

---
 .../src/context/ordinary_assembly/ordinary_assembly_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index db9ee7e..4c71df2 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -235,7 +235,7 @@ void ordinary_assembly_context::finish_module_layout(loctr_dependency_resolver*
             else
             {
                 if (sect->location_counters()[i - 1]->has_unresolved_spaces())
-                    return;
+                    break;
 
                 sect->location_counters()[i]->finish_layout(sect->location_counters()[i - 1]->storage());
                 symbol_dependencies.add_defined(resolver);
-- 
2.43.0


From f4bd4ce8ecfd1cb45586be99a1dc02ec106b4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:01 +0000
Subject: [PATCH 39/71] fix: endless search for a cycle in a graph that already
 has another one

---
 .../context/ordinary_assembly/symbol_dependency_tables.cpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 2de05fc..6f9686f 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -35,11 +35,16 @@ bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependa
         return false;
     }
 
+    std::unordered_set<dependant> visited;
+
     while (!dependencies.empty())
     {
         auto top_dep = std::move(dependencies.back());
         dependencies.pop_back();
 
+        if (!visited.insert(top_dep).second)
+            continue;
+
         const resolvable* dep_src = nullptr;
 
         if (auto it = dependencies_.find(top_dep); it != dependencies_.end())
-- 
2.43.0


From c087a6503e87a3d47186b7998023179179188bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:33 +0000
Subject: [PATCH 40/71] fix: report cyclic definitions that close when a label
 is defined

---
 .../symbol_dependency_tables.cpp              | 58 +++++++++++++++----
 .../symbol_dependency_tables.h                |  5 ++
 .../ordinary_processor.cpp                    |  3 +
 3 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 6f9686f..f85bb61 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -26,14 +26,11 @@
 
 namespace hlasm_plugin::parser_library::context {
 
-bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependant> dependencies)
+bool symbol_dependency_tables::depends_on(const dependant& target, std::vector<dependant> dependencies)
 {
     if (std::find(dependencies.begin(), dependencies.end(), target)
         != dependencies.end()) // dependencies contain target itself
-    {
-        resolve_dependant_default(target);
-        return false;
-    }
+        return true;
 
     std::unordered_set<dependant> visited;
 
@@ -55,15 +52,56 @@ bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependa
         for (auto&& dep : extract_dependencies(dep_src))
         {
             if (dep == target)
-            {
-                resolve_dependant_default(target);
-                return false;
-            }
+                return true;
             dependencies.push_back(std::move(dep));
         }
     }
 
-    return true;
+    return false;
+}
+
+bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependant> dependencies)
+{
+    if (!depends_on(target, std::move(dependencies)))
+        return true;
+
+    resolve_dependant_default(target);
+    return false;
+}
+
+std::vector<std::pair<processing_stack_t, range>> symbol_dependency_tables::break_cycles(
+    loctr_dependency_resolver* resolver)
+{
+    std::vector<std::pair<processing_stack_t, range>> result;
+
+    while (true)
+    {
+        std::vector<dependant> cycled;
+        std::unordered_set<const postponed_statement*> stmts;
+
+        for (const auto& [target, dep_src] : dependencies_)
+        {
+            auto source = dependency_source_stmts_.find(target);
+            if (source == dependency_source_stmts_.end() || !depends_on(target, extract_dependencies(dep_src)))
+                continue;
+
+            cycled.push_back(target);
+            if (const auto* stmt = source->second.stmt_ref->get(); stmts.insert(stmt).second)
+                result.emplace_back(stmt->location_stack(), stmt->impl()->stmt_range_ref());
+        }
+
+        if (cycled.empty())
+            return result;
+
+        for (const auto& target : cycled)
+        {
+            resolve_dependant_default(target);
+            dependencies_.erase(target);
+            try_erase_source_statement(target);
+        }
+
+        resolve(resolver);
+    }
 }
 
 struct resolve_dependant_visitor
diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
index 66e1f7a..7abdfd9 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
@@ -57,6 +57,7 @@ class symbol_dependency_tables
 
     ordinary_assembly_context& sym_ctx_;
 
+    bool depends_on(const dependant& target, std::vector<dependant> dependencies);
     bool check_cycle(dependant target, std::vector<dependant> dependencies);
 
     void resolve_dependant(dependant target, const resolvable* dep_src, loctr_dependency_resolver* resolver);
@@ -101,6 +102,10 @@ public:
     // if resolver is present, location counter dependencies are checked as well (not just symbol deps)
     void add_defined(loctr_dependency_resolver* resolver = nullptr);
 
+    // assigns default values to the dependants that form a cycle
+    // returns locations of the offending statements
+    std::vector<std::pair<processing_stack_t, range>> break_cycles(loctr_dependency_resolver* resolver);
+
     // checks for cycle in location counter value
     bool check_loctr_cycle();
 
diff --git a/parser_library/src/processing/statement_processors/ordinary_processor.cpp b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
index c548fb4..574df2c 100644
--- a/parser_library/src/processing/statement_processors/ordinary_processor.cpp
+++ b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
@@ -107,6 +107,9 @@ void ordinary_processor::end_processing()
 {
     hlasm_ctx.ord_ctx.symbol_dependencies.add_defined(&asm_proc_);
 
+    for (auto& [stack, stmt_range] : hlasm_ctx.ord_ctx.symbol_dependencies.break_cycles(&asm_proc_))
+        diagnostic_collector(this, std::move(stack))(diagnostic_op::error_E033(stmt_range));
+
     hlasm_ctx.ord_ctx.finish_module_layout(&asm_proc_);
 
     hlasm_ctx.ord_ctx.symbol_dependencies.resolve_all_as_default();
-- 
2.43.0


From 72ab3d861041d440d81d0ec396e48fef7f47dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:33 +0000
Subject: [PATCH 41/71] fix: EQU of an address plus an attribute or product
 that is not known yet

---
 .../src/processing/instruction_sets/asm_processor.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 03a938f..8daf3bf 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -152,7 +152,7 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             }
             else
             {
-                if (!holder.is_address())
+                if (!holder.is_address() || !holder.undefined_attr_refs.empty() || !holder.unresolved_spaces.empty())
                 {
                     bool cycle_ok = create_symbol(stmt.stmt_range_ref(), symbol_name, context::symbol_value(), attrs);
 
-- 
2.43.0


From b2dc73bdec370c0f9eacdc979b45172d199bfd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:39 +0000
Subject: [PATCH 42/71] fix: length attribute of a label whose definition
 refers to itself or repeats another label

---
 .../instruction_sets/asm_processor.cpp          | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 8daf3bf..79a8d28 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -206,6 +206,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     // process label
     auto label = find_label_symbol(stmt);
+    bool label_length_postponed = false;
+    bool label_scale_postponed = false;
 
     if (label != context::id_storage::empty_id && stmt.operands_ref().value.size()
         && stmt.operands_ref().value.front()->type != semantics::operand_type::EMPTY)
@@ -228,11 +230,15 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             {
                 len = value.get_length_attribute();
             }
+            else
+                label_length_postponed = true;
             if (data_op->value->scale
                 && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
             {
                 scale = value.get_scale_attribute();
             }
+            else if (data_op->value->scale)
+                label_scale_postponed = true;
             create_symbol(stmt.stmt_range_ref(),
                 label,
                 std::move(adr),
@@ -265,19 +271,14 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         bool cycle_ok = true;
 
-        if (label != context::id_storage::empty_id)
+        if (label_length_postponed || label_scale_postponed)
         {
-            if (adder.source_stmt->impl()->operands_ref().value.empty())
-                return;
-
             auto data_op = adder.source_stmt->impl()->operands_ref().value.front()->access_data_def();
 
-            if (data_op->value->length
-                && data_op->value->length->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            if (label_length_postponed)
                 cycle_ok = adder.add_dependency(label, context::data_attr_kind::L, data_op->value->length.get());
 
-            if (data_op->value->scale
-                && data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            if (label_scale_postponed)
                 cycle_ok &= adder.add_dependency(label, context::data_attr_kind::S, data_op->value->scale.get());
         }
 
-- 
2.43.0


From 8f296ebd6d155083327ae685affbcb0a3c6fe24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:22 +0000
Subject: [PATCH 43/71] fix: locations of copied statements in nested macro
 definitions

---
 .../macrodef_processor.cpp                    | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index 76be22f..a45495d 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -459,14 +459,23 @@ void macrodef_processor::process_sequence_symbol(const semantics::label_si& labe
 
 void macrodef_processor::add_correct_copy_nest()
 {
-    result_.nests.push_back({ location(curr_outer_position_, result_.definition_location.file) });
-
-    for (size_t i = initial_copy_nest_; i < hlasm_ctx.current_copy_stack().size(); ++i)
+    if (!start_.is_external && hlasm_ctx.is_in_macro())
+    {
+        // statements of a nested definition keep the locations they have in the macro that contains it
+        const auto& invocation = hlasm_ctx.this_macro();
+        result_.nests.push_back(invocation->copy_nests[invocation->current_statement]);
+    }
+    else
     {
-        auto& nest = hlasm_ctx.current_copy_stack()[i];
-        auto pos = nest.cached_definition[nest.current_statement].get_base()->statement_position();
-        auto loc = location(pos, nest.definition_location.file);
-        result_.nests.back().push_back(std::move(loc));
+        result_.nests.push_back({ location(curr_outer_position_, result_.definition_location.file) });
+
+        for (size_t i = initial_copy_nest_; i < hlasm_ctx.current_copy_stack().size(); ++i)
+        {
+            auto& nest = hlasm_ctx.current_copy_stack()[i];
+            auto pos = nest.cached_definition[nest.current_statement].get_base()->statement_position();
+            auto loc = location(pos, nest.definition_location.file);
+            result_.nests.back().push_back(std::move(loc));
+        }
     }
 
     const auto& current_file = result_.nests.back().back().file;
-- 
2.43.0


From e0c9e783204ae373bb7739557fc908070483f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 44/71] fix: continue could be lost while the debugger was
 about to wait, and kept a pending step over

---
 parser_library/src/debugging/debugger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index e89d7cb..3297471 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -249,8 +249,12 @@ public:
 
     void continue_debug()
     {
-        stop_on_next_stmt_ = false;
-        continue_ = true;
+        {
+            std::lock_guard<std::mutex> lck(control_mtx);
+            stop_on_next_stmt_ = false;
+            step_over_ = false;
+            continue_ = true;
+        }
         con_var.notify_all();
     }
 
-- 
2.43.0


From 4edb68ba46488f43d56e2f84016bc6b830c31c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 45/71] fix: step over used the analyzer context before it
 existed and after it was destroyed

---
 parser_library/src/debugging/debugger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 3297471..294a9fc 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -90,6 +90,8 @@ class debugger::impl final : public processing::statement_analyzer
     std::atomic<bool> stop_on_next_stmt_ = false;
     std::atomic<bool> step_over_ = false;
     size_t step_over_depth_ = 0;
+    // Depth of the processing stack when the debugger stopped.
+    size_t stop_depth_ = 0;
 
     // Range of statement that is about to be processed by analyzer.
     range next_stmt_range_;
@@ -197,6 +199,7 @@ public:
             stop_on_next_stmt_ = false;
             step_over_ = false;
             next_stmt_range_ = stmt_range;
+            stop_depth_ = proc_stack_.size();
 
             continue_ = false;
             if (event_)
@@ -214,7 +217,7 @@ public:
         {
             std::lock_guard<std::mutex> lck(control_mtx);
             step_over_ = true;
-            step_over_depth_ = ctx_->processing_stack().size();
+            step_over_depth_ = stop_depth_;
             continue_ = true;
         }
         con_var.notify_all();
-- 
2.43.0


From 2a681a6f569644bee3be6a66521de55386d6458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 46/71] fix: disconnect while the debugger was about to stop
 left the variables unlocked

---
 parser_library/src/debugging/debugger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 294a9fc..97db2a1 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -97,7 +97,7 @@ class debugger::impl final : public processing::statement_analyzer
     range next_stmt_range_;
 
     // True, if disconnect request was received
-    bool disconnected_ = false;
+    std::atomic<bool> disconnected_ = false;
 
     // Cancellation token for parsing
     std::atomic<bool> cancel_ = false;
@@ -195,7 +195,10 @@ public:
 
             std::unique_lock<std::mutex> lck(control_mtx);
             if (disconnected_)
+            {
+                variable_mtx_.lock();
                 return;
+            }
             stop_on_next_stmt_ = false;
             step_over_ = false;
             next_stmt_range_ = stmt_range;
-- 
2.43.0


From 5fa39541b35948f8747694d36162b4d85a757412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 47/71] fix: second launch in a debugging session terminated
 the server

---
 parser_library/src/debugging/debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 97db2a1..f6c6be6 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -129,7 +129,9 @@ public:
     void launch(
         std::string_view source, workspaces::workspace& workspace, bool stop_on_entry, parse_lib_provider* lib_provider)
     {
-        // TODO: check if already running???
+        if (thread_.joinable()) // already launched
+            return;
+
         auto open_code = workspace.get_processor_file(std::string(source));
         opencode_source_path_ = open_code->get_file_name();
         stop_on_next_stmt_ = stop_on_entry;
-- 
2.43.0


From fa0669ebf61a362e6c50423cde03995cd06d8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 48/71] fix: iterator used after insertion when variables are
 expanded in the debugger

---
 parser_library/src/debugging/debugger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index f6c6be6..fe73bff 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -371,7 +371,8 @@ public:
         auto it = variables_.find(var_ref);
         if (it == variables_.end())
             return empty_variables;
-        for (const auto& var : it->second.variables)
+        const auto& store = it->second; // not affected by insertions
+        for (const auto& var : store.variables)
         {
             if (var->is_scalar())
                 continue;
@@ -379,7 +380,7 @@ public:
             var->var_reference = add_variable(var->values());
         }
 
-        return it->second;
+        return store;
     }
 
     void breakpoints(std::string_view source, std::vector<breakpoint> bps)
-- 
2.43.0


From 0350acf980df245a286eb9a3834b5e1e33f760a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 49/71] fix: duplication factor and length of V-type constants
 that are defined later

---
 .../src/processing/instruction_sets/asm_processor.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 79a8d28..1036e59 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -196,7 +196,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         data_op->value->assign_location_counter(adr);
 
-        has_dependencies |= data_op->value->type != 'V' && data_op->has_dependencies(hlasm_ctx.ord_ctx);
+        has_dependencies |= data_op->has_dependencies(hlasm_ctx.ord_ctx);
 
         has_length_dependencies |= data_op->get_length_dependencies(hlasm_ctx.ord_ctx).contains_dependencies();
 
-- 
2.43.0


From edd3fb6ff2c5efa5e55b7663d72d14de838b99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 50/71] fix: length attribute of hexadecimal and binary
 constants with spaces

---
 .../src/checking/data_definition/data_def_types_string.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_string.cpp b/parser_library/src/checking/data_definition/data_def_types_string.cpp
index 315b45c..2d08ed2 100644
--- a/parser_library/src/checking/data_definition/data_def_types_string.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_string.cpp
@@ -43,11 +43,8 @@ uint64_t get_X_B_length(const std::string& s, uint64_t frac)
 
 uint32_t get_X_B_length_attr(const std::string& s, uint64_t frac)
 {
-    size_t first_value_len = s.find(',');
-    if (first_value_len == std::string::npos)
-        first_value_len = s.size();
-    first_value_len = (first_value_len + frac - 1) / frac;
-    return (uint32_t)first_value_len;
+    // the length of the first value, spaces are not a part of it
+    return (uint32_t)get_X_B_length(s.substr(0, s.find(',')), frac);
 }
 
 // Checks comma separated values. is_valid_digit specifies whether the char is valid character of value.
-- 
2.43.0


From 7dacaac8f4ab7fe42e25f0d79a89f9d114f8c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 51/71] fix: exponent modifier right after the type of a
 constant

---
 parser_library/src/expressions/data_definition.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index e36a4c2..5359d91 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -458,9 +458,12 @@ void data_definition::parser::parse_duplication_factor()
     }
 }
 
-bool is_type_extension(char ch)
+bool is_type_extension(char type, char ch)
 {
-    static std::set<char> type_extensions({ 'A', 'E', 'U', 'H', 'B', 'D', 'Q', 'Y' });
+    // E is a type extension only in CE, elsewhere it begins the exponent modifier
+    if (ch == 'E')
+        return type == 'C';
+    static std::set<char> type_extensions({ 'A', 'U', 'H', 'B', 'D', 'Q', 'Y' });
     return type_extensions.find(ch) != type_extensions.end();
 }
 
@@ -597,7 +600,7 @@ data_definition data_definition::parser::parse()
     if (p_ >= format_.size())
         return std::move(result_);
 
-    if (is_type_extension(format_[p_]))
+    if (is_type_extension(result_.type, format_[p_]))
     {
         result_.extension = format_[p_];
         result_.extension_range = { pos_, { pos_.line, pos_.column + 1 } };
-- 
2.43.0


From 71b304e09fcadd05ee9ab6c8383298b19e25b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 52/71] fix: scale and integer attributes of constants without
 a scale modifier and of constants looked ahead

---
 .../src/processing/instruction_sets/asm_processor.cpp       | 6 +++---
 .../processing/statement_processors/lookahead_processor.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 1036e59..14d5131 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -232,12 +232,12 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             }
             else
                 label_length_postponed = true;
-            if (data_op->value->scale
-                && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            if (!data_op->value->scale
+                || !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
             {
                 scale = value.get_scale_attribute();
             }
-            else if (data_op->value->scale)
+            else
                 label_scale_postponed = true;
             create_symbol(stmt.stmt_range_ref(),
                 label,
diff --git a/parser_library/src/processing/statement_processors/lookahead_processor.cpp b/parser_library/src/processing/statement_processors/lookahead_processor.cpp
index f1950dc..816100d 100644
--- a/parser_library/src/processing/statement_processors/lookahead_processor.cpp
+++ b/parser_library/src/processing/statement_processors/lookahead_processor.cpp
@@ -228,12 +228,14 @@ void lookahead_processor::assign_data_def_attributes(context::id_index symbol_na
     {
         len = value.get_length_attribute();
     }
-    if (data_op->value->scale && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+    if (!data_op->value->scale || !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
     {
         scale = value.get_scale_attribute();
     }
 
-    register_attr_ref(symbol_name, context::symbol_attributes(context::symbol_origin::DAT, type, len, scale));
+    register_attr_ref(symbol_name,
+        context::symbol_attributes(
+            context::symbol_origin::DAT, type, len, scale, value.get_integer_attribute()));
 }
 
 void lookahead_processor::assign_section_attributes(context::id_index symbol_name, const resolved_statement&)
-- 
2.43.0


From 46d8fc51df18d8b95a81d22ddd297e675a525294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:53 +0000
Subject: [PATCH 53/71] fix: alignment of second and further operands of DC and
 DS

---
 .../instruction_sets/asm_processor.cpp        | 45 ++++++-----
 .../data_def_postponed_statement.h            | 74 ++++++++++++++++---
 2 files changed, 88 insertions(+), 31 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 14d5131..1fe786e 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -185,9 +185,6 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     // dependency sources is list of all expressions in data def operand, that have some unresolved dependencies.
     bool has_dependencies = false;
-    // has_length_dependencies specifies whether the length of the data instruction can be resolved right now or must be
-    // postponed
-    bool has_length_dependencies = false;
     for (const auto& op : stmt.operands_ref().value)
     {
         if (op->type == semantics::operand_type::EMPTY)
@@ -198,8 +195,6 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         has_dependencies |= data_op->has_dependencies(hlasm_ctx.ord_ctx);
 
-        has_length_dependencies |= data_op->get_length_dependencies(hlasm_ctx.ord_ctx).contains_dependencies();
-
         // some types require operands that consist only of one symbol
         data_op->value->check_single_symbol_ok(diagnostic_collector(this));
     }
@@ -255,19 +250,22 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     if (has_dependencies)
     {
-        auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(
-            std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack()));
-        if (has_length_dependencies)
+        auto postponed =
+            std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack());
+        const auto& groups = postponed->groups;
+        auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(std::move(postponed));
+
+        for (const auto& group : groups)
         {
-            auto sp = hlasm_ctx.ord_ctx.register_ordinary_space(al);
-            adder.add_dependency(
-                sp, dynamic_cast<const data_def_postponed_statement<instr_type>*>(&*adder.source_stmt));
+            if (&group != &groups.front())
+                (void)hlasm_ctx.ord_ctx.align(group.align);
+
+            if (group.get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+                adder.add_dependency(hlasm_ctx.ord_ctx.register_ordinary_space(group.align), &group);
+            else
+                hlasm_ctx.ord_ctx.reserve_storage_area(
+                    group.get_length(hlasm_ctx.ord_ctx).value_or(0), context::no_align);
         }
-        else
-            hlasm_ctx.ord_ctx.reserve_storage_area(
-                data_def_postponed_statement<instr_type>::get_operands_length(
-                    adder.source_stmt->impl()->operands_ref().value, hlasm_ctx.ord_ctx),
-                context::no_align);
 
         bool cycle_ok = true;
 
@@ -292,9 +290,18 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
     }
     else
     {
-        hlasm_ctx.ord_ctx.reserve_storage_area(
-            data_def_postponed_statement<instr_type>::get_operands_length(stmt.operands_ref().value, hlasm_ctx.ord_ctx),
-            context::no_align);
+        const auto groups = data_def_operand_group<instr_type>::split(stmt.operands_ref().value);
+
+        // no storage is reserved for an incorrect statement
+        if (std::all_of(groups.begin(), groups.end(), [this](const auto& g) { return g.get_length(hlasm_ctx.ord_ctx); }))
+        {
+            for (const auto& group : groups)
+            {
+                if (&group != &groups.front())
+                    (void)hlasm_ctx.ord_ctx.align(group.align);
+                hlasm_ctx.ord_ctx.reserve_storage_area(*group.get_length(hlasm_ctx.ord_ctx), context::no_align);
+            }
+        }
         check(stmt, hlasm_ctx, checker_, *this);
     }
 }
diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 7bebc45..2aa3c38 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -15,57 +15,107 @@
 #ifndef HLASMPLUGIN_PARSERLIBRARY_PROCESSING_DATA_DEF_POSTPONED_STATEMENT_H
 #define HLASMPLUGIN_PARSERLIBRARY_PROCESSING_DATA_DEF_POSTPONED_STATEMENT_H
 
+#include <optional>
 #include <variant>
+#include <vector>
 
 #include "checking/data_definition/data_definition_operand.h"
 #include "postponed_statement_impl.h"
 
 namespace hlasm_plugin::parser_library::processing {
 
+// Consecutive operands of a data definition, the alignment of which follows from the address of the first one of them.
 template<checking::data_instr_type instr_type>
-struct data_def_postponed_statement : public postponed_statement_impl, public context::resolvable
+struct data_def_operand_group final : public context::resolvable
 {
-    data_def_postponed_statement(rebuilt_statement stmt, context::processing_stack_t stmt_location_stack)
-        : postponed_statement_impl(std::move(stmt), std::move(stmt_location_stack))
+    using operand_it = semantics::operand_list::const_iterator;
+
+    data_def_operand_group(operand_it begin, operand_it end, context::alignment align)
+        : begin(begin)
+        , end(end)
+        , align(align)
     {}
 
+    operand_it begin;
+    operand_it end;
+    context::alignment align;
+
+    // Splits operands of a data definition. Each operand that requires stricter alignment than the current group starts
+    // a new one.
+    static std::vector<data_def_operand_group> split(const semantics::operand_list& operands)
+    {
+        std::vector<data_def_operand_group> result;
+        for (auto it = operands.begin(); it != operands.end(); ++it)
+        {
+            auto al = context::no_align;
+            if ((*it)->type != semantics::operand_type::EMPTY)
+                al = (*it)->access_data_def()->value->get_alignment();
+
+            if (result.empty() || al.boundary > result.back().align.boundary)
+                result.emplace_back(it, it + 1, al);
+            else
+                result.back().end = it + 1;
+        }
+        return result;
+    }
 
     // Inherited via resolvable
     context::dependency_collector get_dependencies(context::dependency_solver& solver) const override
     {
         context::dependency_collector conjunction;
-        for (const auto& op : operands_ref().value)
+        for (auto it = begin; it != end; ++it)
         {
-            if (op->type == semantics::operand_type::EMPTY)
+            if ((*it)->type == semantics::operand_type::EMPTY)
                 continue;
-            conjunction = conjunction + op->access_data_def()->get_length_dependencies(solver);
+            conjunction = conjunction + (*it)->access_data_def()->get_length_dependencies(solver);
         }
         return conjunction;
     }
 
-    static int32_t get_operands_length(const semantics::operand_list& operands, context::dependency_solver& solver)
+    // Length of the group, empty when there is an incorrect operand.
+    std::optional<int32_t> get_length(context::dependency_solver& solver) const
     {
         std::vector<checking::check_op_ptr> checking_ops;
         std::vector<const checking::data_definition_operand*> get_len_ops;
-        for (const auto& op : operands)
+        for (auto it = begin; it != end; ++it)
         {
-            if (op->type == semantics::operand_type::EMPTY)
+            if ((*it)->type == semantics::operand_type::EMPTY)
                 continue;
-            auto o = op->access_data_def()->get_operand_value(solver);
+            auto o = (*it)->access_data_def()->get_operand_value(solver);
             checking::data_definition_operand* dd_op = dynamic_cast<checking::data_definition_operand*>(o.get());
+            if (!dd_op->check<instr_type>(diagnostic_collector()))
+                return std::nullopt;
             checking_ops.push_back(std::move(o));
             get_len_ops.push_back(dd_op);
         }
         uint64_t len = checking::data_definition_operand::get_operands_length<instr_type>(get_len_ops);
         if (len > INT32_MAX)
-            return 0;
+            return std::nullopt;
         else
             return (int32_t)len;
     }
 
     context::symbol_value resolve(context::dependency_solver& solver) const override
     {
-        return get_operands_length(operands_ref().value, solver);
+        return get_length(solver).value_or(0);
+    }
+};
+
+template<checking::data_instr_type instr_type>
+struct data_def_postponed_statement : public postponed_statement_impl
+{
+    data_def_postponed_statement(rebuilt_statement stmt, context::processing_stack_t stmt_location_stack)
+        : postponed_statement_impl(std::move(stmt), std::move(stmt_location_stack))
+        , groups(data_def_operand_group<instr_type>::split(operands_ref().value))
+    {}
+
+    const std::vector<data_def_operand_group<instr_type>> groups;
+
+    static int32_t get_operands_length(const semantics::operand_list& operands, context::dependency_solver& solver)
+    {
+        return data_def_operand_group<instr_type>(operands.begin(), operands.end(), context::no_align)
+            .get_length(solver)
+            .value_or(0);
     }
 };
 
-- 
2.43.0


From 121939a914ba0a3ca17de9f79c79c61817abb504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:51 +0000
Subject: [PATCH 54/71] fix: exception on a label of a P or Z constant with an
 expression as its value

---
 .../checking/data_definition/data_def_types_fixed_point.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
index de7bb54..ea4c94b 100644
--- a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
@@ -222,6 +222,8 @@ uint32_t hlasm_plugin::parser_library::checking::data_def_type_P::get_nominal_le
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     const std::string& s = std::get<std::string>(op.value);
 
@@ -264,6 +266,8 @@ uint32_t data_def_type_Z::get_nominal_length_attribute(const nominal_value_t& op
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     uint32_t first_value_len = 0;
     for (char c : std::get<std::string>(op.value))
-- 
2.43.0


From 088ec419ddc5f0fe34a54c41a7b1b1cc617a57de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 55/71] fix: length attribute of a label with a bit length that
 is defined later

---
 .../instruction_sets/asm_processor.cpp        |  3 ++-
 .../data_def_postponed_statement.h            | 25 +++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 1fe786e..6125b56 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -253,6 +253,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
         auto postponed =
             std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack());
         const auto& groups = postponed->groups;
+        const auto& label_length = postponed->label_length;
         auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(std::move(postponed));
 
         for (const auto& group : groups)
@@ -274,7 +275,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             auto data_op = adder.source_stmt->impl()->operands_ref().value.front()->access_data_def();
 
             if (label_length_postponed)
-                cycle_ok = adder.add_dependency(label, context::data_attr_kind::L, data_op->value->length.get());
+                cycle_ok = adder.add_dependency(label, context::data_attr_kind::L, &label_length);
 
             if (label_scale_postponed)
                 cycle_ok &= adder.add_dependency(label, context::data_attr_kind::S, data_op->value->scale.get());
diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 2aa3c38..2cfd4d0 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -101,15 +101,40 @@ struct data_def_operand_group final : public context::resolvable
     }
 };
 
+// Length attribute of the label of a data definition, whose length modifier is defined later.
+struct data_def_length_attribute final : public context::resolvable
+{
+    explicit data_def_length_attribute(const expressions::data_definition* definition)
+        : definition(definition)
+    {}
+
+    const expressions::data_definition* definition;
+
+    // Inherited via resolvable
+    context::dependency_collector get_dependencies(context::dependency_solver& solver) const override
+    {
+        return definition->length->get_dependencies(solver);
+    }
+
+    context::symbol_value resolve(context::dependency_solver& solver) const override
+    {
+        return (int32_t)definition->get_length_attribute(solver);
+    }
+};
+
 template<checking::data_instr_type instr_type>
 struct data_def_postponed_statement : public postponed_statement_impl
 {
     data_def_postponed_statement(rebuilt_statement stmt, context::processing_stack_t stmt_location_stack)
         : postponed_statement_impl(std::move(stmt), std::move(stmt_location_stack))
         , groups(data_def_operand_group<instr_type>::split(operands_ref().value))
+        , label_length(operands_ref().value.front()->type == semantics::operand_type::EMPTY
+                  ? nullptr
+                  : operands_ref().value.front()->access_data_def()->value.get())
     {}
 
     const std::vector<data_def_operand_group<instr_type>> groups;
+    const data_def_length_attribute label_length;
 
     static int32_t get_operands_length(const semantics::operand_list& operands, context::dependency_solver& solver)
     {
-- 
2.43.0


From 04f7eefbe4553a11aa7df2ffa534687e5f26e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:22 +0000
Subject: [PATCH 56/71] fix: alignment after DC and DS of a length that is
 defined later

---
 .../instruction_sets/asm_processor.cpp          |  3 ++-
 .../data_def_postponed_statement.h              | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 6125b56..2c8760a 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -262,7 +262,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
                 (void)hlasm_ctx.ord_ctx.align(group.align);
 
             if (group.get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
-                adder.add_dependency(hlasm_ctx.ord_ctx.register_ordinary_space(group.align), &group);
+                adder.add_dependency(
+                    hlasm_ctx.ord_ctx.register_ordinary_space(group.get_end_alignment(hlasm_ctx.ord_ctx)), &group);
             else
                 hlasm_ctx.ord_ctx.reserve_storage_area(
                     group.get_length(hlasm_ctx.ord_ctx).value_or(0), context::no_align);
diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 2cfd4d0..78c8a9e 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -15,6 +15,7 @@
 #ifndef HLASMPLUGIN_PARSERLIBRARY_PROCESSING_DATA_DEF_POSTPONED_STATEMENT_H
 #define HLASMPLUGIN_PARSERLIBRARY_PROCESSING_DATA_DEF_POSTPONED_STATEMENT_H
 
+#include <iterator>
 #include <optional>
 #include <variant>
 #include <vector>
@@ -72,6 +73,22 @@ struct data_def_operand_group final : public context::resolvable
         return conjunction;
     }
 
+    // Alignment of the first address after the group.
+    context::alignment get_end_alignment(context::dependency_solver& solver) const
+    {
+        const auto& last = *std::prev(end);
+        if (last->type == semantics::operand_type::EMPTY)
+            return context::no_align;
+
+        const auto& def = *last->access_data_def()->value;
+        auto al = def.get_alignment();
+        // length of each value when there is no length modifier
+        if (al.boundary > 1 && def.get_length_attribute(solver) % al.boundary == 0)
+            return al;
+        else
+            return context::no_align;
+    }
+
     // Length of the group, empty when there is an incorrect operand.
     std::optional<int32_t> get_length(context::dependency_solver& solver) const
     {
-- 
2.43.0


From 1bbe554282f83f5a706fcef34b914d0270757c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:43 +0000
Subject: [PATCH 57/71] fix: AINSERT rejected records of 79 and 80 characters

---
 parser_library/src/checking/asm_instr_check.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/checking/asm_instr_check.cpp b/parser_library/src/checking/asm_instr_check.cpp
index 8ce0b81..0a2a6ec 100644
--- a/parser_library/src/checking/asm_instr_check.cpp
+++ b/parser_library/src/checking/asm_instr_check.cpp
@@ -1252,7 +1252,7 @@ bool ainsert::check(const std::vector<const asm_operand*>& to_check,
     auto second = get_simple_operand(to_check[1]);
     // check first operand
     if (first == nullptr || first->operand_identifier.size() < 2
-        || first->operand_identifier.size() > string_max_length)
+        || first->operand_identifier.size() > string_max_length + 2) // apostrophes are not part of the record
     {
         add_diagnostic(diagnostic_op::error_A157_AINSERT_first_op_size(to_check[0]->operand_range));
         return false;
-- 
2.43.0


From c15e14db660e8a902cf54f443e53add27fbc939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:43 +0000
Subject: [PATCH 58/71] fix: a line that cannot be parsed swallowed the rest of
 the program

---
 parser_library/src/parsing/error_strategy.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/parser_library/src/parsing/error_strategy.h b/parser_library/src/parsing/error_strategy.h
index 955a75d..4523e4b 100644
--- a/parser_library/src/parsing/error_strategy.h
+++ b/parser_library/src/parsing/error_strategy.h
@@ -61,6 +61,24 @@ class error_strategy : public antlr4::DefaultErrorStrategy
         }
     }
 
+    void recover(antlr4::Parser* recognizer, std::exception_ptr e) override
+    {
+        if (recognizer->getContext()->parent)
+        {
+            DefaultErrorStrategy::recover(recognizer, e);
+            return;
+        }
+
+        // the outermost rule parses a statement, the next one is not affected
+        antlr4::misc::IntervalSet endTokens;
+
+        endTokens.addItems(tokens::EOLLN);
+        consumeUntil(recognizer, endTokens);
+        if (recognizer->getInputStream()->LA(1) == tokens::EOLLN)
+            recognizer->consume();
+        endErrorCondition(recognizer);
+    }
+
     antlr4::Token* getMissingSymbol(antlr4::Parser* recognizer) override
     {
         using namespace antlr4;
-- 
2.43.0


From 09ff1c7baf8c2f117f6dd7d76326b6dcce9cc9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:43 +0000
Subject: [PATCH 59/71] fix: macro comments among inserted records were
 recognised by the text of the file

---
 parser_library/src/lexing/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index c9ff8c5..7315c7d 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -363,7 +363,7 @@ void lexer::lex_tokens()
 
         case '.':
             /* macro comment */
-            if (input_state_->char_position_in_line == begin_ && input_->LA(2) == '*')
+            if (input_state_->char_position_in_line == begin_ && input_state_->input->LA(2) == '*')
             {
                 lex_comment();
             }
-- 
2.43.0


From f06e1fd4bc2f1acade3c24f4854bfb916a08c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:43 +0000
Subject: [PATCH 60/71] fix: continued records inserted by AINSERT hung the
 analysis or lost their text

---
 parser_library/src/lexing/lexer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 7315c7d..a7d6b3d 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -556,11 +556,17 @@ void lexer::lex_continuation()
     create_token(CONTINUATION, HIDDEN_CHANNEL);
 
     lex_end(false);
+
+    /* statement inserted by AINSERT continues in the next inserted record */
+    if (from_buffer())
+        switch_input_streams();
+
     lex_begin();
 
     /* lex continuation */
     start_token();
-    while (input_state_->char_position_in_line < continue_ && !eof() && input_state_->c != '\n')
+    while (input_state_->char_position_in_line < continue_ && !eof() && input_state_->c != '\n'
+        && input_state_->c != static_cast<char_t>(-1))
         consume();
     create_token(IGNORED, HIDDEN_CHANNEL);
 }
@@ -595,8 +601,7 @@ void lexer::lex_space()
 bool lexer::before_end() const
 {
     return (input_state_->char_position_in_line < end_
-        || (unlimited_line_ && input_state_->c != '\r' && input_state_->c != '\n')
-        || (input_state_->char_position_in_line == end_ && from_buffer() && !ainsert_buffer_.empty()));
+        || (unlimited_line_ && input_state_->c != '\r' && input_state_->c != '\n'));
 }
 
 bool lexer::ord_char(char_t c)
-- 
2.43.0


From c911b6b0ca616355b254dbd6d1fd99c2aeefd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:43 +0000
Subject: [PATCH 61/71] fix: AREAD and AINSERT lost or reordered records read
 ahead of the statement

---
 parser_library/src/lexing/lexer.cpp        | 104 ++++++++++++++-------
 parser_library/src/lexing/lexer.h          |   8 ++
 parser_library/src/parsing/parser_impl.cpp |   4 +
 3 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index a7d6b3d..7bda028 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -788,44 +788,85 @@ size_t lexer::length_utf16(const std::string& str)
     return l;
 }
 
-std::string lexer::aread()
+void lexer::set_statement_end(const antlr4::Token& eolln)
 {
-    string str;
+    const auto end_offset = eolln.getStopIndex() + 1;
+    if (eolln.getInputStream() == ainsert_stream_.get())
+        inserted_end_offset_ = end_offset;
+    else
+    {
+        // the file is read when there are no more inserted records
+        inserted_end_offset_ = ainsert_stream_->size();
+        file_end_pos_ = { eolln.getLine() + 1, end_offset };
+    }
+}
 
-    switch_input_streams();
+void lexer::return_lookahead()
+{
+    // tokens are numbered from the beginning of the stream, which is going to be reset
+    delete_token(0);
+    tokens_after_continuation_.clear();
+    last_continuation_ = static_cast<size_t>(-1);
 
-    if (eof())
-        return "";
+    if (file_input_state_.char_position != file_end_pos_.offset)
+        rewind_input(file_end_pos_);
 
-    if (file_input_state_.char_position_in_line)
-        rewind_input(stream_position { file_input_state_.line,
-            file_input_state_.char_position
-                - file_input_state_.char_position_in_line }); // make sure we read the WHOLE line
-    if (from_buffer() && buffer_input_state_.char_position_in_line)
+    // records in the stream are terminated with new line
+    std::deque<UTF32String> returned;
+    for (size_t offset = inserted_end_offset_; offset < ainsert_stream_->size();)
     {
-        buffer_input_state_.char_position -= buffer_input_state_.char_position_in_line;
-        buffer_input_state_.char_position_in_line = 0;
-        buffer_input_state_.char_position_in_line_utf16 = 0;
-        buffer_input_state_.input->rewind_input(buffer_input_state_.char_position);
-        input_state_->c = buffer_input_state_.input->LA(1);
+        auto text = converter.from_bytes(
+            ainsert_stream_->getText(antlr4::misc::Interval(offset, ainsert_stream_->size() - 1)));
+        text.resize(text.find('\n') + 1);
+        returned.emplace_back(text.begin(), text.end());
+        offset += text.size();
     }
+    ainsert_buffer_.insert(ainsert_buffer_.begin(), returned.begin(), returned.end());
 
-    start_token();
-    while (!eof() && input_state_->c != '\r' && input_state_->c != '\n' && input_state_->c != static_cast<char_t>(-1))
+    ainsert_stream_->seek(ainsert_stream_->size());
+    inserted_end_offset_ = ainsert_stream_->size();
+    buffer_input_state_.char_position = inserted_end_offset_;
+    buffer_input_state_.char_position_in_line = 0;
+    buffer_input_state_.char_position_in_line_utf16 = 0;
+    input_state_ = &file_input_state_;
+}
+
+std::string lexer::aread()
+{
+    string str;
+
+    // make sure we read the WHOLE record that follows the statement
+    return_lookahead();
+
+    if (!ainsert_buffer_.empty())
     {
-        str.append(converter.to_bytes(input_state_->c));
-        consume();
+        const auto& record = ainsert_buffer_.front();
+        for (size_t i = 0; i + 1 < record.size(); ++i)
+            str.append(converter.to_bytes(record[i]));
+        ainsert_buffer_.pop_front();
     }
-    consume_new_line();
+    else if (!eof())
+    {
+        start_token();
+        while (!eof() && input_state_->c != '\r' && input_state_->c != '\n')
+        {
+            str.append(converter.to_bytes(input_state_->c));
+            consume();
+        }
+        consume_new_line();
 
-    if (input_state_ == &file_input_state_)
+        file_end_pos_ = { token_start_state_.line + 1, input_state_->char_position };
         set_last_line_pos(input_state_->char_position, token_start_state_.line);
 
-    if (eof())
-        create_token(Token::EOF);
+        if (str.empty())
+            str = " ";
+    }
 
-    if (str.empty())
-        str = " ";
+    if (eof() && ainsert_buffer_.empty())
+    {
+        start_token();
+        create_token(Token::EOF);
+    }
 
     return str;
 }
@@ -845,19 +886,14 @@ void lexer::ainsert(const std::string& inp, bool front)
         if (str.size() < 80)
             str.resize(80, ' ');
         str.push_back('\n');
+
+        // records that follow the statement are read after the inserted one
+        return_lookahead();
+
         if (front)
             ainsert_buffer_.push_front(str);
         else
             ainsert_buffer_.push_back(str);
-
-        if (file_input_state_.char_position_in_line)
-            rewind_input(stream_position { file_input_state_.line,
-                file_input_state_.char_position
-                    - file_input_state_.char_position_in_line }); // make sure we read the WHOLE line
-
-        while (token_queue_.size())
-            token_queue_.pop();
-        eof_generated_ = false;
     }
     else
     {
diff --git a/parser_library/src/lexing/lexer.h b/parser_library/src/lexing/lexer.h
index 75952f9..9d4c184 100644
--- a/parser_library/src/lexing/lexer.h
+++ b/parser_library/src/lexing/lexer.h
@@ -109,6 +109,8 @@ public:
 
     void ainsert_front(const std::string&);
     void ainsert_back(const std::string&);
+    // remembers the end of the current statement
+    void set_statement_end(const antlr4::Token& eolln);
     // executes AREAD instruction; consumes line from input
     std::string aread();
     std::unique_ptr<input_source>& get_ainsert_stream();
@@ -149,6 +151,12 @@ private:
     // must be dequeue - inserting & poping from both ends
     std::deque<UTF32String> ainsert_buffer_;
 
+    // ends of the last statements processed from the file and from the ainsert stream
+    stream_position file_end_pos_ = { 0, 0 };
+    size_t inserted_end_offset_ = 0;
+    // returns everything lexed after the current statement back to the input
+    void return_lookahead();
+
     std::set<size_t> tokens_after_continuation_;
     size_t last_token_id_ = 0;
     size_t last_continuation_ = static_cast<size_t>(-1);
diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index de6257b..b6609fe 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -86,6 +86,7 @@ void parser_impl::ainsert(const std::string& record, processing::ainsert_destina
     }
     // TODO: this needs to be really reworked...
     input_tokens_invalidated = true;
+    finished_flag = false;
 }
 
 context::source_position parser_impl::statement_start() const
@@ -514,6 +515,9 @@ void parser_impl::process_ordinary()
 {
     auto lab_instr = dynamic_cast<hlasmparser&>(*this).lab_instr();
 
+    if (const auto* last = _input->LT(-1); last && last->getType() == lexing::lexer::EOLLN)
+        input_lexer->set_statement_end(*last);
+
     if (!finished_flag && collector.has_instruction())
     {
         bool attr_look_needed = process_instruction();
-- 
2.43.0


From d678d532f420cb98ec67d818827650aa1746b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:15 +0000
Subject: [PATCH 62/71] fix: lines of macros from copy members and around
 nested macros belonged to the wrong scope

---
 parser_library/src/lsp/file_info.cpp          | 14 +++++---
 .../macrodef_processor.cpp                    | 33 +++++++------------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index e0ec779..015fbd3 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -122,10 +122,16 @@ file_slice_t file_slice_t::transform_slice(const macro_slice_t& slice, macro_inf
     else
         fslice.file_lines.begin = macro_i->macro_definition->copy_nests[fslice.macro_lines.begin].back().pos.line;
 
-    if (slice.end_statement == macro_i->macro_definition->copy_nests.size())
-        fslice.file_lines.end = macro_i->macro_definition->copy_nests.back().back().pos.line + 1;
-    else
-        fslice.file_lines.end = macro_i->macro_definition->copy_nests[fslice.macro_lines.end].back().pos.line;
+    // the slice ends where the next statement of the same file starts
+    const auto& nests = macro_i->macro_definition->copy_nests;
+    const auto& last = nests[fslice.macro_lines.end - 1].back();
+    fslice.file_lines.end = last.pos.line + 1;
+    if (fslice.macro_lines.end < nests.size())
+    {
+        const auto& next = nests[fslice.macro_lines.end].back();
+        if (next.file == last.file && next.pos.line > last.pos.line)
+            fslice.file_lines.end = next.pos.line;
+    }
 
     fslice.type = slice.inner_macro ? scope_type::INNER_MACRO : scope_type::MACRO;
     fslice.macro_context = macro_i;
diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index a45495d..3bffe6c 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -482,27 +482,18 @@ void macrodef_processor::add_correct_copy_nest()
     bool in_inner_macro = macro_nest_ > 1;
 
 
-    if (result_.file_scopes[current_file].empty())
-    {
-        if (curr_line_ == 1)
-            result_.file_scopes[current_file].emplace_back(0, curr_line_, in_inner_macro);
-        else
-            result_.file_scopes[current_file].emplace_back(curr_line_, in_inner_macro);
-    }
-    else
-    {
-        bool inner_macro_ended = last_in_inner_macro_ && !in_inner_macro;
-        bool inner_macro_started = !last_in_inner_macro_ && in_inner_macro;
-        if (inner_macro_ended) // add new scope when inner macro ended
-            result_.file_scopes[current_file].emplace_back(curr_line_, in_inner_macro);
-        else if (!in_inner_macro
-            || inner_macro_started) // if we are not in inner macro update the end of old scope. Update also when inner
-                                    // macro just started, since we use half-open intervals.
-        {
-            auto& last_scope = result_.file_scopes[current_file].back();
-            last_scope.end_statement = curr_line_;
-        }
-    }
+    // the statement that has just been added
+    const size_t statement = result_.nests.size() - 1;
+    auto& scopes = result_.file_scopes[current_file];
+
+    bool inner_macro_ended = last_in_inner_macro_ && !in_inner_macro;
+    bool inner_macro_started = !last_in_inner_macro_ && in_inner_macro;
+    if (in_inner_macro && !inner_macro_started)
+        ; // statements of an inner macro do not belong to the scope
+    else if (inner_macro_ended || scopes.empty()) // add new scope when inner macro ended
+        scopes.emplace_back(statement, statement + 1, false);
+    else // update the end of old scope, also when inner macro just started
+        scopes.back().end_statement = statement + 1;
 
     last_in_inner_macro_ = in_inner_macro;
 }
-- 
2.43.0


From b81f90ffff01a55c4a319fa36a4b5c24ee3f79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:15 +0000
Subject: [PATCH 63/71] fix: variables in subscripts, strings and substrings
 were not found by definition and references

---
 parser_library/src/lsp/file_info.cpp                   |  8 ++++----
 .../statement_analyzers/occurence_collector.cpp        | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index 015fbd3..9275688 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -58,11 +58,11 @@ occurence_scope_t file_info::find_occurence_with_scope(position pos) const
 
     // find in occurences
     for (const auto& occ : occurences)
-        if (is_in_range(pos, occ.occurence_range))
-        {
+        if (is_in_range(pos, occ.occurence_range)
+            && (!found // occurences may be nested (subscripts of variables)
+                || std::tie(found->occurence_range.start.line, found->occurence_range.start.column)
+                    < std::tie(occ.occurence_range.start.line, occ.occurence_range.start.column)))
             found = &occ;
-            break;
-        }
 
     // if not found, return
     if (!found)
diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
index a4d97e1..9a4729c 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
@@ -121,6 +121,10 @@ void occurence_collector::get_occurence(const semantics::variable_symbol& var)
         else
             occurences.emplace_back(lsp::occurence_kind::VAR, var.access_basic()->name, var.symbol_range);
     }
+
+    for (const auto& subscript : var.subscript)
+        if (subscript)
+            subscript->apply(*this);
 }
 
 void occurence_collector::get_occurence(const semantics::seq_sym& seq)
@@ -202,6 +206,12 @@ void occurence_collector::visit(const expressions::ca_string& expr)
 {
     if (expr.duplication_factor)
         expr.duplication_factor->apply(*this);
+    if (collector_kind == lsp::occurence_kind::VAR) // text of the string does not refer to symbols
+        get_occurence(expr.value);
+    if (expr.substring.start)
+        expr.substring.start->apply(*this);
+    if (expr.substring.count)
+        expr.substring.count->apply(*this);
 }
 
 void occurence_collector::visit(const expressions::ca_symbol& expr) { get_occurence(expr.symbol, expr.expr_range); }
-- 
2.43.0


From 7e965bd43d8393ef3d13f0539e50ebe21d411968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:15 +0000
Subject: [PATCH 64/71] fix: open-code sequence symbols found by a lookahead
 from a macro were located in the macro's file

---
 parser_library/src/processing/processing_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/processing_manager.cpp b/parser_library/src/processing/processing_manager.cpp
index 90fc7ee..dcff1e0 100644
--- a/parser_library/src/processing/processing_manager.cpp
+++ b/parser_library/src/processing/processing_manager.cpp
@@ -301,7 +301,11 @@ std::unique_ptr<context::opencode_sequence_symbol> processing_manager::create_op
     context::id_index name, range symbol_range)
 {
     auto symbol_pos = symbol_range.start;
-    location loc(symbol_pos, hlasm_ctx_.processing_stack().back().proc_location.file);
+    // the symbol is read from open code even when the lookahead was started from a macro
+    const auto& copy_stack = hlasm_ctx_.current_copy_stack();
+    location loc(symbol_pos,
+        copy_stack.empty() ? hlasm_ctx_.current_source().current_instruction.file
+                           : copy_stack.back().definition_location.file);
 
     auto&& [statement_position, snapshot] = hlasm_ctx_.get_begin_snapshot(attr_lookahead_active());
 
-- 
2.43.0


From dc749d752129f113c37d5f9de38802eca99613c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:15 +0000
Subject: [PATCH 65/71] fix: the label of a nested MEND counted as a reference
 of the outer macro

---
 .../src/processing/statement_analyzers/lsp_analyzer.cpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
index 7ae4f19..adab26f 100644
--- a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
+++ b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
@@ -43,6 +43,9 @@ void lsp_analyzer::analyze(
     if (statement.access_resolved())
         instr = *statement.access_resolved()->opcode_ref().value;
 
+    // MEND of a nested macro belongs to the nested macro
+    const bool in_nested_macro = macro_nest_ > 1;
+
     switch (proc_kind)
     {
         case processing_kind::ORDINARY:
@@ -58,7 +61,7 @@ void lsp_analyzer::analyze(
             break;
         case processing_kind::MACRO:
             update_macro_nest(statement);
-            if (macro_nest_ > 1)
+            if (in_nested_macro || macro_nest_ > 1)
                 break; // Do not collect occurences in nested macros to avoid collecting occurences multiple times
             collect_occurences(lsp::occurence_kind::VAR, statement);
             collect_occurences(lsp::occurence_kind::SEQ, statement);
-- 
2.43.0


From 410465fec7f7d4663802d662c97c4a60210c2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 66/71] fix: check the register or length of D(X) operands

---
 parser_library/src/checking/instr_operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/checking/instr_operand.cpp b/parser_library/src/checking/instr_operand.cpp
index 0012e4e..dff7a2a 100644
--- a/parser_library/src/checking/instr_operand.cpp
+++ b/parser_library/src/checking/instr_operand.cpp
@@ -172,14 +172,14 @@ bool address_operand::check(diagnostic_op& diag,
 
                 // length parameters can have +1 values specified
                 if (to_check.first.type == machine_operand_type::LENGTH
-                    && !is_length_corresponding(first_op, to_check.first.size))
+                    && !is_length_corresponding(actual_val, to_check.first.size))
                 {
                     diag = get_first_parameter_error(
                         to_check.first.type, instr_name, 0, 1ll << to_check.first.size, stmt_range);
                     return false;
                 }
                 if (to_check.first.type != machine_operand_type::LENGTH
-                    && !is_operand_corresponding(first_op, to_check.first))
+                    && !is_operand_corresponding(actual_val, to_check.first))
                 {
                     assert(!to_check.first.is_signed);
                     diag = get_first_parameter_error(
-- 
2.43.0


From d08bbc8f15b817cea2fba456c5b91d6261ff48b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 67/71] fix: operands substituted by the extended vector
 mnemonics

---
 parser_library/src/context/instruction.cpp | 40 +++++++++++-----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 2280b1d..fcb8648 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -2029,7 +2029,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "SELRNL", { &i.at("SELR"), { { 3, 11 } } });
     add_mnemonic_code(result, "SELRNO", { &i.at("SELR"), { { 3, 14 } } });
     add_mnemonic_code(result, "SELRO", { &i.at("SELR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 0, 1 } } });
+    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 1, 0 } } });
     add_mnemonic_code(result, "VONE", { &i.at("VGBM"), { { 1, 65535 } } });
     add_mnemonic_code(result, "VGMB", { &i.at("VGM"), { { 3, 0 } } });
     add_mnemonic_code(result, "VGMH", { &i.at("VGM"), { { 3, 1 } } });
@@ -2109,8 +2109,8 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VACCF", { &i.at("VACC"), { { 3, 2 } } });
     add_mnemonic_code(result, "VACCG", { &i.at("VACC"), { { 3, 3 } } });
     add_mnemonic_code(result, "VACCQ", { &i.at("VACC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 3, 4 } } });
+    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 4, 4 } } });
+    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 4, 4 } } });
     add_mnemonic_code(result, "VAVGB", { &i.at("VAVG"), { { 3, 0 } } });
     add_mnemonic_code(result, "VAVGH", { &i.at("VAVG"), { { 3, 1 } } });
     add_mnemonic_code(result, "VAVGF", { &i.at("VAVG"), { { 3, 2 } } });
@@ -2324,12 +2324,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VFENEZBS", { &i.at("VFENE"), { { 3, 0 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZHS", { &i.at("VFENE"), { { 3, 1 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZFS", { &i.at("VFENE"), { { 3, 2 }, { 4, 3 } } });
-    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 3, 0 } } });
-    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 3, 2 } } });
-    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 3, 0 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 3, 1 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 3, 2 }, { 4, 1 } } });
+    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 2, 1 } } });
+    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 2, 2 } } });
+    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 2, 0 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 2, 1 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 2, 2 }, { 3, 1 } } });
     add_mnemonic_code(result, "VSTRCB", { &i.at("VSTRC"), { { 4, 0 } } });
     add_mnemonic_code(result, "VSTRCH", { &i.at("VSTRC"), { { 4, 1 } } });
     add_mnemonic_code(result, "VSTRCF", { &i.at("VSTRC"), { { 4, 2 } } });
@@ -2342,12 +2342,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFAXB", { &i.at("VFA"), { { 3, 4 }, { 4, 8 } } });
-    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 3, 4 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 3, 4 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 2, 4 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 2, 4 }, { 3, 0 } } });
     add_mnemonic_code(result, "VFCESB", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 0 } } });
     add_mnemonic_code(result, "VFCESBS", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 1 } } });
     add_mnemonic_code(result, "VFCEDB", { &i.at("VFCE"), { { 3, 3 }, { 4, 0 }, { 5, 0 } } });
@@ -2504,11 +2504,11 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFSQSB", { &i.at("VFSQ"), { { 2, 2 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQDB", { &i.at("VFSQ"), { { 2, 3 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQXB", { &i.at("VFSQ"), { { 2, 4 }, { 3, 8 } } });
-    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 0 } } });
-    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 0 } } });
-    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 2, 4 }, { 3, 8 } } });
+    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 0 } } });
+    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 3, 4 }, { 4, 8 } } });
     add_mnemonic_code(result, "VFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 0 } } });
     add_mnemonic_code(result, "VFTCIDB", { &i.at("VFTCI"), { { 3, 3 }, { 4, 0 } } });
     add_mnemonic_code(result, "WFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 8 } } });
-- 
2.43.0


From 5d3990320f45d2ad6f64b10a3783985511b79356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:59 +0000
Subject: [PATCH 68/71] fix: extended mnemonics of instructions with optional
 operands

---
 .../low_language_processor.cpp                 | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index fb01e4f..b0ab9c1 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -205,13 +205,17 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
     // check whether substituted mnemonic values are ok
 
     // check size of mnemonic operands
-    int diff = (int)curr_instr->operands.size() - (int)operands.size() - (int)mnemonic.replaced.size();
-    if (std::abs(diff) > curr_instr->no_optional)
+    const size_t total_count = curr_instr->operands.size();
+    const size_t max_count = total_count - mnemonic.replaced.size();
+    // optional operands are the last ones, those substituted by the mnemonic are not optional any more
+    size_t optional_count = curr_instr->no_optional;
+    for (const auto& mnem : mnemonic.replaced)
+        if (mnem.first + curr_instr->no_optional >= total_count)
+            --optional_count;
+    if (operands.size() > max_count || operands.size() + optional_count < max_count)
     {
-        auto curr_diag = diagnostic_op::error_optional_number_of_operands(instr_name,
-            curr_instr->no_optional,
-            (int)curr_instr->operands.size() - (int)mnemonic.replaced.size(),
-            stmt.stmt_range_ref());
+        auto curr_diag = diagnostic_op::error_optional_number_of_operands(
+            instr_name, (int)optional_count, (int)max_count, stmt.stmt_range_ref());
 
         add_diagnostic(curr_diag);
         return std::nullopt;
@@ -223,7 +227,7 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     std::vector<checking::check_op_ptr> operand_vector;
     // create vector of empty operands
-    for (size_t i = 0; i < curr_instr->operands.size() + curr_instr->no_optional; i++)
+    for (size_t i = 0; i < operands.size() + mnemonic.replaced.size(); i++)
         operand_vector.push_back(nullptr);
     // add substituted
     for (size_t i = 0; i < mnemonic.replaced.size(); i++)
-- 
2.43.0


From 3e3a659b96fe38367e1da671286aedba0dccd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:04 +0000
Subject: [PATCH 69/71] fix: unnamed sections of different kinds

CSECT, COM and DSECT without a label define different sections, the second one was reported as a duplicate symbol.
---
 .../ordinary_assembly_context.cpp                | 16 +++++++++++-----
 .../instruction_sets/low_language_processor.cpp  | 11 ++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index 4c71df2..9c694a3 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -96,6 +96,9 @@ void ordinary_assembly_context::set_section(id_index name, section_kind kind, lo
         sections_.emplace_back(std::make_unique<section>(name, kind, ids));
         curr_section_ = sections_.back().get();
 
+        if (name == id_storage::empty_id) // unnamed sections do not define any symbol
+            return;
+
         auto tmp_addr = curr_section_->current_location_counter().current_address();
         symbols_.try_emplace(name, name, tmp_addr, symbol_attributes::make_section_attrs(), std::move(symbol_location));
     }
@@ -106,14 +109,17 @@ void ordinary_assembly_context::set_location_counter(id_index name, location sym
     if (!curr_section_)
         create_private_section();
 
-    bool defined = false;
+    bool defined = curr_section_->counter_defined(name);
 
-    for (const auto& sect : sections_)
+    if (!defined)
     {
-        if (sect->counter_defined(name))
+        for (const auto& sect : sections_)
         {
-            curr_section_ = sect.get();
-            defined = true;
+            if (sect->counter_defined(name))
+            {
+                curr_section_ = sect.get();
+                defined = true;
+            }
         }
     }
 
diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index b0ab9c1..3deaec2 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -157,15 +157,20 @@ void low_language_processor::resolve_unknown_loctr_dependency(
     context::space_ptr sp, const context::address& addr, range err_range)
 {
     auto tmp_loctr = hlasm_ctx.ord_ctx.current_section()->current_location_counter();
+    const auto set_location_counter = [this](const context::location_counter& loctr) {
+        // unnamed sections can be told apart only by their kind
+        hlasm_ctx.ord_ctx.set_section(loctr.owner.name, loctr.owner.kind, location());
+        hlasm_ctx.ord_ctx.set_location_counter(loctr.name, location());
+    };
 
-    hlasm_ctx.ord_ctx.set_location_counter(sp->owner.name, location());
+    set_location_counter(sp->owner);
     hlasm_ctx.ord_ctx.current_section()->current_location_counter().switch_to_unresolved_value(sp);
 
     if (!check_address_for_ORG(
             err_range, addr, hlasm_ctx.ord_ctx.align(context::no_align), sp->previous_boundary, sp->previous_offset))
     {
         (void)hlasm_ctx.ord_ctx.current_section()->current_location_counter().restore_from_unresolved_value(sp);
-        hlasm_ctx.ord_ctx.set_location_counter(tmp_loctr.name, location());
+        set_location_counter(tmp_loctr);
         return;
     }
 
@@ -173,7 +178,7 @@ void low_language_processor::resolve_unknown_loctr_dependency(
         addr, sp->previous_boundary, sp->previous_offset, nullptr, nullptr);
 
     auto ret = hlasm_ctx.ord_ctx.current_section()->current_location_counter().restore_from_unresolved_value(sp);
-    hlasm_ctx.ord_ctx.set_location_counter(tmp_loctr.name, location());
+    set_location_counter(tmp_loctr);
 
     context::space::resolve(sp, std::move(ret));
 
-- 
2.43.0


From b919fccd30e3f65c72d62a6b3f8c1ec80e40597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:44 +0000
Subject: [PATCH 70/71] fix: diagnostics found by a lookahead that a macro
 started

They were reported in the file of the macro, at the line of the open code statement.
---
 parser_library/src/context/hlasm_context.cpp | 12 ++++++++++--
 parser_library/src/context/hlasm_context.h   |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index 892c4dd..165f447 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -14,6 +14,7 @@
 
 #include "hlasm_context.h"
 
+#include <algorithm>
 #include <ctime>
 #include <stdexcept>
 
@@ -333,6 +334,13 @@ void hlasm_context::pop_statement_processing()
     proc_stack_.pop_back();
 }
 
+bool hlasm_context::in_lookahead() const
+{
+    return std::any_of(proc_stack_.begin(), proc_stack_.end(), [](const auto& proc) {
+        return proc.proc_kind == processing::processing_kind::LOOKAHEAD;
+    });
+}
+
 id_storage& hlasm_context::ids() { return ids_; }
 
 const hlasm_context::instruction_storage& hlasm_context::instruction_map() const { return instruction_map_; }
@@ -351,7 +359,7 @@ processing_stack_t hlasm_context::processing_stack() const
             res.emplace_back(std::move(loc), scope_stack_.front(), file_processing_type::COPY);
         }
 
-        if (i == 0) // append macros immediately after ordinary processing
+        if (i == 0 && !in_lookahead()) // append macros immediately after ordinary processing
         {
             for (size_t j = 1; j < scope_stack_.size(); ++j)
             {
@@ -370,7 +378,7 @@ processing_stack_t hlasm_context::processing_stack() const
 
 location hlasm_context::current_statement_location() const
 {
-    if (source_stack_.size() > 1 || scope_stack_.size() == 1)
+    if (source_stack_.size() > 1 || scope_stack_.size() == 1 || in_lookahead())
     {
         if (source_stack_.back().copy_stack.size())
         {
diff --git a/parser_library/src/context/hlasm_context.h b/parser_library/src/context/hlasm_context.h
index 7f8ddb2..d0cea96 100644
--- a/parser_library/src/context/hlasm_context.h
+++ b/parser_library/src/context/hlasm_context.h
@@ -60,6 +60,8 @@ class hlasm_context
     const code_scope* curr_scope() const;
     // stack of statement processings
     std::vector<processing_context> proc_stack_;
+    // lookahead reads open code, even if it was triggered by a macro
+    bool in_lookahead() const;
     // stack of processed source files
     std::vector<source_context> source_stack_;
     // stack of nested copy member invocations
-- 
2.43.0


From aa34e06ead54d3a04d5bd4122a6c7eb0ffe065ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:44 +0000
Subject: [PATCH 71/71] fix: location of the diagnostic about too deep macro
 nesting

It was reported after the macros were left: at the file of open code, with the line of the macro statement.
---
 .../src/processing/statement_processors/ordinary_processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/statement_processors/ordinary_processor.cpp b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
index 574df2c..3438b68 100644
--- a/parser_library/src/processing/statement_processors/ordinary_processor.cpp
+++ b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
@@ -231,10 +231,11 @@ bool ordinary_processor::check_fatals(range line_range)
 {
     if (hlasm_ctx.scope_stack().size() > NEST_LIMIT)
     {
+        add_diagnostic(diagnostic_op::error_E055(line_range));
+
         while (hlasm_ctx.is_in_macro())
             hlasm_ctx.leave_macro();
 
-        add_diagnostic(diagnostic_op::error_E055(line_range));
         return true;
     }
 
-- 
2.43.0

