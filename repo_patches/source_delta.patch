From 126dba12ebfb54912bf701bb25467ed21870a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:49 +0000
Subject: [PATCH 01/85] fix: load booleans through an address as one cell, not
 as a floating value

An element of a bool array, or a bool reached through a pointer or a structure
address, was loaded with the two-cell floating instruction.
---
 libs/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index e27ba7d..f8b4337 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -456,7 +456,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 			}
 			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
 			{
-				mem_add(enc, type_is_integer(enc->sx, value.type) ? IC_LAT : IC_LATD);
+				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
 
 			return;
-- 
2.43.0


From 1db2a4ea2045464aec4647e942a7d9eedfe1bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:21 +0000
Subject: [PATCH 02/85] fix: load and store pointers kept in arrays and
 structures through their address

A pointer element of an array was used as its own address, and assignment to a
pointer member through an address loaded the old pointer instead of storing.
---
 libs/compiler/codegen.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index f8b4337..56b1ab5 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -454,7 +454,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 				mem_add(enc, IC_COPY1ST);
 				mem_add(enc, (item_t)type_size(enc->sx, value.type));
 			}
-			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
+			else if (!type_is_array(enc->sx, value.type))
 			{
 				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
@@ -539,7 +539,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 		emit_expression(enc, &base);
 		mem_add(enc, IC_SELECT);
 		mem_add(enc, member_displ);
-		if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+		if (type_is_array(enc->sx, type))
 		{
 			mem_add(enc, IC_LAT);
 		}
@@ -559,7 +559,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 			mem_add(enc, IC_SELECT);
 			mem_add(enc, member_displ);
 
-			if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+			if (type_is_array(enc->sx, type))
 			{
 				mem_add(enc, IC_LAT);
 			}
@@ -582,12 +582,7 @@ static lvalue emit_indirection_lvalue(encoder *const enc, const node *const nd)
 	const item_t type = expression_get_type(nd);
 	const item_t unqualified_type = type_is_const(enc->sx, type) ? type_const_get_unqualified_type(enc->sx, type) : type;
 	const node operand = expression_unary_get_operand(nd);
-	const lvalue value = emit_lvalue(enc, &operand);
-	if (value.kind == VARIABLE)
-	{
-		mem_add(enc, IC_LOAD);
-		mem_add(enc, value.displ);
-	}
+	emit_expression(enc, &operand);
 
 	return (lvalue){ .kind = ADDRESS, .type = unqualified_type };
 }
-- 
2.43.0


From 24269e675d15012f39efaddccdb3976611c11c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:05 +0000
Subject: [PATCH 03/85] fix: let control fall from one case of a switch into
 the next

The label of the next case was tested again when the previous case ran into it,
so its body was skipped; a default that is not the last label hid the labels after it.
---
 libs/compiler/codegen.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 56b1ab5..4466a2b 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -73,6 +73,7 @@ typedef struct encoder
 
 	size_t addr_cond;				/**< Condition address */
 	size_t addr_case;				/**< Case operator address */
+	size_t addr_default;			/**< Default operator address */
 	size_t addr_break;				/**< Break operator address */
 
 	item_t displ;					/**< Current stack displacement */
@@ -1660,8 +1661,12 @@ static void emit_declaration_statement(encoder *const enc, const node *const nd)
  */
 static void emit_case_statement(encoder *const enc, const node *const nd)
 {
+	size_t addr_fallthrough = 0;
 	if (enc->addr_case != 0)
 	{
+		// Control from the previous case must not test this label
+		mem_add(enc, IC_B);
+		addr_fallthrough = mem_reserve(enc);
 		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
 	}
 
@@ -1674,6 +1679,11 @@ static void emit_case_statement(encoder *const enc, const node *const nd)
 	mem_add(enc, IC_BE0);
 	enc->addr_case = mem_reserve(enc);
 
+	if (addr_fallthrough != 0)
+	{
+		mem_set(enc, addr_fallthrough, (item_t)mem_size(enc));
+	}
+
 	const node substmt = statement_case_get_substmt(nd);
 	emit_statement(enc, &substmt);
 }
@@ -1686,11 +1696,14 @@ static void emit_case_statement(encoder *const enc, const node *const nd)
  */
 static void emit_default_statement(encoder *const enc, const node *const nd)
 {
-	if (enc->addr_case != 0)
+	if (enc->addr_case == 0)
 	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
+		// Labels after default must be tested first
+		mem_add(enc, IC_B);
+		enc->addr_case = mem_reserve(enc);
 	}
-	enc->addr_case = 0;
+
+	enc->addr_default = mem_size(enc);
 
 	const node substmt = statement_default_get_substmt(nd);
 	emit_statement(enc, &substmt);
@@ -1756,8 +1769,10 @@ static void emit_switch_statement(encoder *const enc, const node *const nd)
 {
 	const size_t old_addr_break = enc->addr_break;
 	const size_t old_addr_case = enc->addr_case;
+	const size_t old_addr_default = enc->addr_default;
 	enc->addr_break = 0;
 	enc->addr_case = 0;
+	enc->addr_default = 0;
 
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(enc, &condition);
@@ -1767,11 +1782,12 @@ static void emit_switch_statement(encoder *const enc, const node *const nd)
 
 	if (enc->addr_case > 0)
 	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
+		mem_set(enc, enc->addr_case, (item_t)(enc->addr_default != 0 ? enc->addr_default : mem_size(enc)));
 	}
 
 	addr_end_break(enc);
 
+	enc->addr_default = old_addr_default;
 	enc->addr_case = old_addr_case;
 	enc->addr_break = old_addr_break;
 }
-- 
2.43.0


From 3b740c755213d902c9b660b71e83475d4f098a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:25 +0000
Subject: [PATCH 04/85] fix: discard the value of %=, <<=, >>=, &=, ^= and |=
 used as a statement

Only the other assignments were turned into their void form, so each execution of
these left a value on the stack, and a comma expression used it as an operand.
---
 libs/compiler/instructions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index 764cdaf..f52e03b 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -166,7 +166,7 @@ instruction_t instruction_to_floating_ver(const instruction_t instruction)
 
 instruction_t instruction_to_void_ver(const instruction_t instruction)
 {
-	return (instruction >= IC_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
+	return (instruction >= IC_REM_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
 		|| (instruction >= IC_POST_INC && instruction <= IC_PRE_DEC_AT)
 		|| (instruction >= IC_ASSIGN_R && instruction <= IC_DIV_ASSIGN_AT_R)
 		|| (instruction >= IC_POST_INC_R && instruction <= IC_PRE_DEC_AT_R)
-- 
2.43.0


From d29c221915dde0baee50bf48cb4b8f1468c269d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:34 +0000
Subject: [PATCH 05/85] fix: make the value of || true, not the left operand,
 when that is a non-zero integer

---
 libs/compiler/codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 4466a2b..c3f768d 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -1095,6 +1095,14 @@ static void emit_binary_expression(encoder *const enc, const node *const nd)
 		const bool is_logical = operator == BIN_LOG_AND || operator == BIN_LOG_OR;
 		if (is_logical)
 		{
+			if (operator == BIN_LOG_OR && !type_is_boolean(enc->sx, expression_get_type(&LHS)))
+			{
+				// The left operand may become the result, which is boolean
+				mem_add(enc, IC_LI);
+				mem_add(enc, 0);
+				mem_add(enc, IC_NE);
+			}
+
 			mem_add(enc, IC_DUPLICATE);
 			mem_add(enc, operator == BIN_LOG_AND ? IC_BE0 : IC_BNE0);
 			addr = mem_reserve(enc);
-- 
2.43.0


From 44a27aaf6ad0f42b1327b3811bef2fd1e33286d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:51 +0000
Subject: [PATCH 06/85] fix: continue in LLVM loops goes to the condition or
 the increment, not to the body

A for without a condition also ran its increment before the first iteration.
---
 libs/compiler/llvmgen.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a0a3eaa..9b0b514 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2633,7 +2633,7 @@ static void emit_while_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
@@ -2671,12 +2671,13 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const size_t old_label_break = info->label_break;
 	const size_t old_label_continue = info->label_continue;
 	const size_t label_loop = info->label_num++;
+	const size_t label_condition = info->label_num++;
 	const size_t label_end = info->label_num++;
 
 	info->label_true = label_loop;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_loop;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_loop);
 	to_code_label(info, label_loop);
@@ -2684,6 +2685,9 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const node body = statement_do_get_body(nd);
 	emit_statement(info, &body);
 
+	to_code_unconditional_branch(info, label_condition);
+	to_code_label(info, label_condition);
+
 	info->variable_location = LFREE;
 	const node condition = statement_do_get_condition(nd);
 	emit_expression(info, &condition);
@@ -2719,7 +2723,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_incr;
 
 	if (statement_for_has_inition(nd))
 	{
@@ -2740,7 +2744,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	}
 	else
 	{
-		to_code_unconditional_branch(info, label_incr);
+		to_code_unconditional_branch(info, label_body);
 	}
 
 	to_code_label(info, label_incr);
-- 
2.43.0


From e9b0d29c07ddff2a8b9b8308a81f149603bef82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 07/85] fix: write floating constants to LLVM IR with full
 precision

Constants were printed with six decimals, so 1.0 / 3.0 became 0.333333.
---
 libs/compiler/llvmgen.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 9b0b514..f57d81c 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -353,7 +353,7 @@ static void to_code_operation_reg_const_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %%.%zu, %f\n", fst, snd);
+	uni_printf(info->sx->io, " double %%.%zu, %.17e\n", fst, snd);
 }
 
 static void to_code_operation_const_reg_integer(information *const info, const binary_t operation
@@ -371,7 +371,7 @@ static void to_code_operation_const_reg_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %f, %%.%zu\n", fst, snd);
+	uni_printf(info->sx->io, " double %.17e, %%.%zu\n", fst, snd);
 }
 
 static void to_code_operation_reg_null(information *const info, const binary_t operation
@@ -441,7 +441,7 @@ static inline void to_code_store_const_bool(information *const info, const bool
 static inline void to_code_store_const_double(information *const info, const double arg, const size_t id
 	, const bool is_array, const bool is_local)
 {
-	uni_printf(info->sx->io, " store double %f, double* %s%s.%zu, align 4\n"
+	uni_printf(info->sx->io, " store double %.17e, double* %s%s.%zu, align 4\n"
 		, arg, is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
@@ -1157,7 +1157,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 		}
 		else // double
 		{
-			uni_printf(info->sx->io, " %f", arguments_double[i]);
+			uni_printf(info->sx->io, " %.17e", arguments_double[i]);
 		}
 	}
 	uni_printf(info->sx->io, ")\n");
@@ -2169,7 +2169,7 @@ static void emit_initialization(information *const info, const node *const nd, c
 				// константа типа double
 				else
 				{
-					uni_printf(info->sx->io, "double %f", info->answer_const_double);
+					uni_printf(info->sx->io, "double %.17e", info->answer_const_double);
 				}
 			}
 
@@ -2317,7 +2317,7 @@ static void emit_variable_declaration(information *const info, const node *const
 				}
 				else
 				{
-					uni_printf(info->sx->io, " %f, align 4\n", info->answer_const_double);
+					uni_printf(info->sx->io, " %.17e, align 4\n", info->answer_const_double);
 				}
 			}
 		}
@@ -2808,7 +2808,7 @@ static void emit_return_statement(information *const info, const node *const nd)
 		}
 		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
 		{
-			uni_printf(info->sx->io, " ret double %f\n", info->answer_const_double);
+			uni_printf(info->sx->io, " ret double %.17e\n", info->answer_const_double);
 		}
 		else if (info->answer_kind == AREG)
 		{
-- 
2.43.0


From 338539a784e4ff53c7fcdb925a0a09ad7b9634ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 08/85] fix: do not take an LLVM register for a global
 identifier in ++, -- and compound assignment

---
 libs/compiler/llvmgen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index f57d81c..4b9e597 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1266,7 +1266,7 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 		id = (size_t)info->answer_reg;
 	}
 
-	to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+	to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
 
@@ -1294,7 +1294,7 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 			break;
 	}
 
-	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, ident_is_local(info->sx, id));
+	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, is_complex || ident_is_local(info->sx, id));
 	info->register_num++;
 }
 
@@ -1622,7 +1622,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 	if (assignment_type != BIN_ASSIGN)
 	{
-		to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+		to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
 		info->register_num++;
 
 		if (info->answer_kind == AREG)
-- 
2.43.0


From 89dbea419a9677e9392bd62b92e51b0455753f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:08 +0000
Subject: [PATCH 09/85] fix: end a block comment at the first */, also after
 /**/ and **/, and not at /*/

---
 libs/compiler/lexer.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 28167ed..977c3c9 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -101,7 +101,11 @@ static inline void skip_line_comment(lexer *const lxr)
  */
 static inline void skip_block_comment(lexer *const lxr)
 {
-	while (lxr->character != '*' || scan(lxr) != '/')
+	// Звёздочка, открывающая комментарий, не может его закрыть
+	char32_t previous = '\0';
+	scan(lxr);
+
+	while (previous != '*' || lxr->character != '/')
 	{
 		if (lxr->character == (char32_t)EOF)
 		{
@@ -109,6 +113,7 @@ static inline void skip_block_comment(lexer *const lxr)
 			return;
 		}
 
+		previous = lxr->character;
 		scan(lxr);
 	}
 
-- 
2.43.0


From ad2afadc41efa9e6a536b2fbe7af3c1ec532d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:39 +0000
Subject: [PATCH 10/85] fix: encode U+0800-U+0FFF and U+10000-U+3FFFF in UTF-8
 with three and four octets

---
 libs/utils/utf8.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index b425738..146ef3f 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -987,13 +987,8 @@ size_t utf8_to_string(char *const buffer, const char32_t symbol)
 		return 1;
 	}
 
-	char32_t mask = 0x00FC0000;
-	size_t octets = 4;
-	while ((symbol & mask) == 0 && octets > 1)
-	{
-		mask >>= 6;
-		octets--;
-	}
+	const size_t octets = utf8_size(symbol);
+	char32_t mask = (char32_t)0x3F << (6 * (octets - 1));
 
 	for (size_t i = 0; i < octets; i++)
 	{
-- 
2.43.0


From 943014a7c5a80875298268371dd2db1a54a11eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:10 +0000
Subject: [PATCH 11/85] fix: terminate an empty string literal in the string
 table

---
 libs/utils/strings.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 111d0cd..0f063d9 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -159,7 +159,12 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 		vec->all_strings_size += utf8_to_string(&vec->all_strings[vec->all_strings_size], ch);
 	}
 
-	vec->all_strings_size++;
+	if (strings_increase(vec, 1))
+	{
+		return SIZE_MAX;
+	}
+
+	vec->all_strings[vec->all_strings_size++] = '\0';
 	return vec->indexes_size++;
 }
 
-- 
2.43.0


From 8dcd74c3d4f84521aaaf4c4cc55ea17a811f123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:19 +0000
Subject: [PATCH 12/85] fix: do not divide by zero or shift out of range while
 folding constants

---
 libs/compiler/builder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56c5d7..c45feb6 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -151,6 +151,14 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 		{
 			const item_t left_value = expression_literal_get_integer(LHS);
 			const item_t right_value = expression_literal_get_integer(RHS);
+
+			// Такие операции не имеют значения, их вычисление остаётся на время исполнения
+			if (((op == BIN_DIV || op == BIN_REM) && right_value == 0)
+				|| ((op == BIN_SHL || op == BIN_SHR) && (right_value < 0 || right_value > 31)))
+			{
+				return expression_binary(type, LHS, RHS, op, loc);
+			}
+
 			node_remove(LHS);
 			node_remove(RHS);
 
-- 
2.43.0


From 094b07304c2692da66c1021981bf2cce05108d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:16 +0000
Subject: [PATCH 13/85] fix: keep adding digits to an integer literal that has
 become floating

---
 libs/compiler/lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 977c3c9..9428c53 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -226,9 +226,9 @@ static token lex_numeric_literal(lexer *const lxr)
 			return token_int_literal((location){ loc_begin, loc_end }, int_value);
 		}
 
-		if ((base == 2 && int_value >= 0x8000000000000000)
+		if (is_integer && ((base == 2 && int_value >= 0x8000000000000000)
 			|| (base == 8 && int_value >= 0x2000000000000000)
-			|| (int_value >= 0x1000000000000000))
+			|| (int_value >= 0x1000000000000000)))
 		{
 			// Переполнение хранилища - конвертируем в double
 			float_value = (double)int_value;
-- 
2.43.0


From 97321367bc67c7dbfe2a5e99d45814d8f27d1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 14/85] fix: accept a string literal that starts with \0

---
 libs/utils/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 0f063d9..d07206d 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -138,7 +138,7 @@ size_t strings_add_by_utf8(strings *const vec, const char32_t *const str)
 
 size_t strings_add_by_vector(strings *const vec, const vector *const str)
 {
-	if (!strings_is_correct(vec) || !vector_is_correct(str) || vector_get(str, 0) == '\0' || strings_add_index(vec))
+	if (!strings_is_correct(vec) || !vector_is_correct(str) || strings_add_index(vec))
 	{
 		return SIZE_MAX;
 	}
-- 
2.43.0


From ee7346b7573568911c128407b79a24e48a426e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:58 +0000
Subject: [PATCH 15/85] fix: stop at the end of the file inside a structure
 declaration

---
 libs/compiler/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9b6f1a5..f03fcca 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -985,13 +985,19 @@ static item_t parse_struct_declaration(parser *const prs, const node *const pare
 {
 	prs->was_type_def = true;	// FIXME: this is only until global declarations refactoring
 	assert(token_is(&prs->tk, TK_L_BRACE));
-	consume_token(prs);
+	const location l_loc = consume_token(prs);
 
 	node declaration = build_empty_struct_declaration(&prs->bld, name, struct_loc);
 
 	node_vector members = node_vector_create();
 	while (!try_consume_token(prs, TK_R_BRACE))
 	{
+		if (token_is(&prs->tk, TK_EOF))
+		{
+			parser_error(prs, expected_r_brace, l_loc);
+			break;
+		}
+
 		const node member = parse_member_declaration(prs, &declaration);
 		node_vector_add(&members, &member);
 	}
-- 
2.43.0


From 632aa467992a48a5cb2e4dd9877a6a0eb3a2bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:25 +0000
Subject: [PATCH 16/85] fix: allow structures of more than 48 members

---
 libs/compiler/syntax.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index d49c94a..9fc4413 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -720,10 +720,14 @@ item_t type_array_get_element_type(const syntax *const sx, const item_t type)
 
 item_t type_structure(syntax *const sx, vector *const types, vector *const names)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
-
 	const size_t members = vector_size(types);
+	item_t *const local_modetab = malloc((3 + 2 * members) * sizeof(item_t));
+	if (local_modetab == NULL)
+	{
+		return ITEM_MAX;
+	}
+
+	size_t local_md = 3;
 	item_t displ = 0;
 	for (size_t i = 0; i < members; i++)
 	{
@@ -738,7 +742,9 @@ item_t type_structure(syntax *const sx, vector *const types, vector *const names
 	local_modetab[0] = TYPE_STRUCTURE;
 	local_modetab[1] = (item_t)displ;
 	local_modetab[2] = (item_t)members * 2;
-	return type_add(sx, local_modetab, local_md);
+	const item_t result = type_add(sx, local_modetab, local_md);
+	free(local_modetab);
+	return result;
 }
 
 size_t type_structure_get_member_amount(const syntax *const sx, const item_t type)
-- 
2.43.0


From 41c50bcb1495e0382b0dfb6f581bcbdaab04d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:25 +0000
Subject: [PATCH 17/85] fix: allow more than 49 enumeration constants and 97
 parameters, and stop at the end of the file inside an enumeration

---
 libs/compiler/parser.c | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index f03fcca..b385c5c 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1076,9 +1076,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		return TYPE_UNDEFINED;
 	}
 
-	size_t local_md = 2;
 	item_t field_value = 0;
-	item_t local_modetab[100];
+	vector fields = vector_create(64);
+	vector_increase(&fields, 2);
 
 	const item_t type = type_add(prs->sx, (item_t[]){ TYPE_ENUM }, 1);
 
@@ -1088,6 +1088,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		{
 			parser_error(prs, wait_ident_after_comma_in_enum);
 			skip_until(prs, TK_SEMICOLON | TK_R_BRACE);
+			try_consume_token(prs, TK_R_BRACE);
+			vector_clear(&fields);
+			return TYPE_UNDEFINED;
 		}
 
 		const size_t name = token_get_ident_name(&prs->tk);
@@ -1111,6 +1114,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
+				vector_clear(&fields);
 				return TYPE_UNDEFINED;
 			}
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
@@ -1120,8 +1124,8 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
 		}
 
-		local_modetab[local_md++] = field_value - 1;
-		local_modetab[local_md++] = (item_t)name;
+		vector_add(&fields, field_value - 1);
+		vector_add(&fields, (item_t)name);
 		if (token_is(&prs->tk, TK_R_BRACE))
 		{
 			continue;
@@ -1129,10 +1133,11 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		expect_and_consume(prs, TK_COMMA, no_comma_in_enum);
 	} while (!try_consume_token(prs, TK_R_BRACE));
 
-	local_modetab[1] = (item_t)(local_md - 2);
-	local_modetab[0] = local_modetab[2] / 2;
+	vector_set(&fields, 1, (item_t)(vector_size(&fields) - 2));
+	vector_set(&fields, 0, vector_get(&fields, 2) / 2);
 
-	type_enum_add_fields(prs->sx, local_modetab, local_md);
+	type_enum_add_fields(prs->sx, fields.array, vector_size(&fields));
+	vector_clear(&fields);
 	return type;
 }
 
@@ -1875,9 +1880,11 @@ static node parse_statement(parser *const prs)
  */
 static item_t parse_function_declarator(parser *const prs, const int level, int func_def, const item_t return_type)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
-	size_t args = 0;
+	vector record = vector_create(64);
+	vector_add(&record, TYPE_FUNCTION);
+	vector_add(&record, return_type);
+	vector_add(&record, 0);
+	item_t args = 0;
 
 	if (try_consume_token(prs, TK_R_PAREN))
 	{
@@ -1920,6 +1927,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 				parser_error(prs, ident_in_declarator);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
 				try_consume_token(prs, TK_R_PAREN);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 
@@ -1962,6 +1970,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 						else
 						{
 							parser_error(prs, two_idents_for_1_declarer);
+							vector_clear(&record);
 							return TYPE_UNDEFINED;
 						}
 						func_add(prs->sx, -((item_t)token_get_ident_name(&prs->tk)));
@@ -1970,6 +1979,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					else
 					{
 						parser_error(prs, ident_in_declarator);
+						vector_clear(&record);
 						return TYPE_UNDEFINED;
 					}
 				}
@@ -2005,28 +2015,30 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					skip_until(prs, TK_R_BRACE);
 					try_consume_token(prs, TK_R_BRACE);
 				}
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 			else if (func_def == 1 && !was_ident)
 			{
 				parser_error(prs, wait_definition);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 
 			args++;
-			local_modetab[local_md++] = type;
+			vector_add(&record, type);
 		} while (try_consume_token(prs, TK_COMMA));
 
 		expect_and_consume(prs, TK_R_PAREN, wrong_param_list);
 		prs->func_def = func_def;
 	}
 
-	local_modetab[0] = TYPE_FUNCTION;
-	local_modetab[1] = return_type;
-	local_modetab[2] = (item_t)args;
+	vector_set(&record, 2, args);
 
-	return type_add(prs->sx, local_modetab, local_md);
+	const item_t type = type_add(prs->sx, record.array, vector_size(&record));
+	vector_clear(&record);
+	return type;
 }
 
 /**
-- 
2.43.0


From 5ec6af588272076c1a4e32aadd70b1cf2e3a62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 18/85] fix: apply a unary operator of a preprocessor
 expression to a value in parentheses

---
 libs/macro/computer.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index d345b9d..5914629 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -256,15 +256,16 @@ static inline int computer_compare_priority(const item_t fst, const item_t snd)
 	}
 }
 
-static inline int computer_const_number(computer *const comp, const item_t pos, item_t num, const char *const name)
+/**
+ *	Apply all unary operators before the value and store the result
+ *
+ *	@param	comp		Computer structure
+ *	@param	num			Value
+ *
+ *	@return	@c 0 on success
+ */
+static int computer_apply_unary(computer *const comp, item_t num)
 {
-	if (comp->was_number)
-	{
-		computer_error(comp, pos, EXPR_MISSING_BINARY, name);
-		return -1;
-	}
-
-	comp->was_number = true;
 	while (true)
 	{
 		switch (stack_peek(&comp->operators))
@@ -295,6 +296,18 @@ static inline int computer_const_number(computer *const comp, const item_t pos,
 	}
 }
 
+static inline int computer_const_number(computer *const comp, const item_t pos, item_t num, const char *const name)
+{
+	if (comp->was_number)
+	{
+		computer_error(comp, pos, EXPR_MISSING_BINARY, name);
+		return -1;
+	}
+
+	comp->was_number = true;
+	return computer_apply_unary(comp, num);
+}
+
 
 /*
  *	 __     __   __     ______   ______     ______     ______   ______     ______     ______
@@ -345,7 +358,7 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	{
 		stack_pop(&comp->operators);
 		stack_pop(&comp->operators);
-		return 0;
+		return computer_apply_unary(comp, stack_pop(&comp->numbers));
 	}
 
 	const int priority = computer_compare_priority(previous, tk);
-- 
2.43.0


From 32000980136e13eeb35a82e0c6b8cb36b2db0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 19/85] fix: negate the operand of ! in a preprocessor
 expression

---
 libs/macro/computer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 5914629..801b3d5 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -278,7 +278,7 @@ static int computer_apply_unary(computer *const comp, item_t num)
 			case TK_NOT:
 				stack_pop(&comp->operators);
 				stack_pop(&comp->operators);
-				num = num != 0 ? 1 : 0;
+				num = num == 0 ? 1 : 0;
 				break;
 			case TK_U_NEGATION:
 				stack_pop(&comp->operators);
-- 
2.43.0


From b22767a265fdbaad43a5cb3ed8cb6cc131616cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:15 +0000
Subject: [PATCH 20/85] fix: read a number with a base prefix inside a macro
 used in a preprocessor expression

---
 libs/macro/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 506e545..c19ba68 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1195,13 +1195,14 @@ static inline bool parse_suffix(parser *const prs)
 static inline bool parse_number(parser *const prs, computer *const comp, const size_t pos)
 {
 	location loc = loc_copy(prs->loc);
+	const size_t begin = in_get_position(prs->io);
 
 	unsigned long long number = 0;
 	uni_scanf(prs->io, "%lld", &number);
 	size_t position = in_get_position(prs->io);
 	char32_t character = skip_until(prs, false);
 
-	if (number == 0 && pos + 1 == in_get_position(prs->io))
+	if (number == 0 && begin + 1 == in_get_position(prs->io))
 	{
 		bool was_error = false;
 		if (character == 'x' || character == 'X')
-- 
2.43.0


From 02a3c000861f3551424a3621dd513dcb15d0487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:16 +0000
Subject: [PATCH 21/85] fix: report a division by zero in a preprocessor
 expression instead of crashing

---
 libs/macro/computer.c | 12 +++++++++---
 libs/macro/error.c    |  3 +++
 libs/macro/error.h    |  1 +
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 801b3d5..6cdb06e 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -166,19 +166,25 @@ static inline int computer_token_without_number(computer *const comp, const item
 static int computer_select_three(computer *const comp)
 {
 	const token_t operator = stack_pop(&comp->operators);
-	stack_pop(&comp->operators);
+	const item_t pos = stack_pop(&comp->operators);
 
 	const item_t second = stack_pop(&comp->numbers);
 	const item_t first = stack_pop(&comp->numbers);
 
+	if ((operator == TK_DIV || operator == TK_MOD) && second == 0)
+	{
+		computer_error(comp, pos, EXPR_ZERO_DIVISION);
+		return stack_push(&comp->numbers, 0);
+	}
+
 	switch(operator)
 	{
 		case TK_MULT:
 			return stack_push(&comp->numbers, first * second);
 		case TK_DIV:
-			return stack_push(&comp->numbers, first / second);
+			return stack_push(&comp->numbers, second == -1 ? -first : first / second);
 		case TK_MOD:
-			return stack_push(&comp->numbers, first % second);
+			return stack_push(&comp->numbers, second == -1 ? 0 : first % second);
 		case TK_ADD:
 			return stack_push(&comp->numbers, first + second);
 		case TK_SUB:
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 24f53b2..d7e7053 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -287,6 +287,9 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
+		case EXPR_ZERO_DIVISION:
+			sprintf(msg, "деление на ноль в выражении");
+			break;
 
 		default:
 			sprintf(msg, "неизвестная ошибка");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 1c281e6..70b59ce 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -73,6 +73,7 @@ typedef enum ERROR
 	EXPR_MISSING_BETWEEN,
 	EXPR_NO_LEFT_OPERAND,
 	EXPR_NO_RIGHT_OPERAND,
+	EXPR_ZERO_DIVISION,
 } error_t;
 
 /** Warning codes */
-- 
2.43.0


From 11d5e6cd83eb04510c1a43d65f7a62e9b1cf1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 22/85] fix: end an unclosed quote in a skipped line at the end
 of that line

---
 libs/macro/parser.c | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index c19ba68..f9b2d3d 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -320,6 +320,36 @@ static char32_t skip_lines(parser *const prs)
 	return character;
 }
 
+/**
+ *	Skip string content after quote without output and errors.
+ *	Stop after the closing quote or before @c '\n' without backslash.
+ *
+ *	@param	prs			Parser structure
+ *	@param	quote		Expected closing quote
+ */
+static inline void skip_quoted(parser *const prs, const char32_t quote)
+{
+	char32_t character = uni_scan_char(prs->io);
+	bool was_slash = false;
+
+	while (was_slash || character != quote)
+	{
+		character = character == '\r' ? uni_scan_char(prs->io) : character;
+		if (character == (char32_t)EOF || (!was_slash && character == '\n'))
+		{
+			uni_unscan_char(prs->io, character);
+			return;
+		}
+		else if (character == '\n')
+		{
+			loc_line_break(prs->loc);
+		}
+
+		was_slash = !was_slash && character == '\\';
+		character = uni_scan_char(prs->io);
+	}
+}
+
 /**
  *	Skip expression until the next line.
  *	Stopped without last character read and processed.
@@ -336,18 +366,7 @@ static inline char32_t skip_expression(parser *const prs)
 		uni_scan_char(prs->io);
 		if (character == '\'' || character == '"')
 		{
-			const bool is_recovery_disabled = prs->is_recovery_disabled;
-			const bool was_error = prs->was_error;
-			prs->is_recovery_disabled = true;
-			prs->was_error = true;
-
-			universal_io out = io_create();
-			out_swap(prs->io, &out);
-			skip_string(prs, character);
-			out_swap(prs->io, &out);
-
-			prs->was_error = was_error;
-			prs->is_recovery_disabled = is_recovery_disabled;
+			skip_quoted(prs, character);
 		}
 
 		character = skip_until(prs, false);
-- 
2.43.0


From aa04afa28208b3be4cff81b6e4f3789759e6401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 23/85] fix: do not replace letters of a number by a macro of
 the same name

---
 libs/macro/parser.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index f9b2d3d..49de95a 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -227,6 +227,25 @@ static char32_t skip_string(parser *const prs, const char32_t quote)
 	return character;
 }
 
+/**
+ *	Write number to output with all its letters.
+ *	They are not identifiers and must not be replaced.
+ *	Stopped without last character read and processed.
+ *
+ *	@param	prs			Parser structure
+ */
+static void skip_number(parser *const prs)
+{
+	char32_t character = uni_scan_char(prs->io);
+	while (utf8_is_digit(character) || utf8_is_letter(character) || character == '.')
+	{
+		uni_print_char(prs->io, character);
+		character = uni_scan_char(prs->io);
+	}
+
+	uni_unscan_char(prs->io, character);
+}
+
 /**
  *	Skip all comments, space and tab characters until first significant character.
  *	Line break is also a significant character.
@@ -471,6 +490,10 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 				uni_printf(prs->io, MASK_ARGUMENT "%s", value);
 			}
 		}
+		else if (utf8_is_digit(character))
+		{
+			skip_number(prs);
+		}
 		else if (character == '\'' || character == '"' || (character == '<' && keyword == KW_INCLUDE))
 		{
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -730,6 +753,10 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
 				? storage_last_read(stg) : storage_get_by_index(stg, current));
 		}
+		else if (utf8_is_digit(ch))
+		{
+			skip_number(prs);
+		}
 		else if (ch == '\'' || ch == '"')
 		{
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -889,6 +916,10 @@ static inline char32_t parse_until(parser *const prs)
 		{
 			parse_identifier(prs);
 		}
+		else if (utf8_is_digit(character))
+		{
+			skip_number(prs);
+		}
 		else if (character == '#')
 		{
 			loc_search_from(prs->loc);
@@ -1865,6 +1896,10 @@ static inline char *parse_content(parser *const prs, storage *const stg)
 					uni_printf(prs->io, "%s", storage_last_read(stg));
 				}
 			}
+			else if (utf8_is_digit(character))
+			{
+				skip_number(prs);
+			}
 			else if (character == '\'' || character == '"')
 			{
 				uni_print_char(prs->io, uni_scan_char(prs->io));
-- 
2.43.0


From 3b3635f5f2e3f87793addcccd878e72001344d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:44 +0000
Subject: [PATCH 24/85] fix: escape every backslash of a literal when a macro
 argument becomes a string

---
 libs/macro/parser.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 49de95a..c12313c 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -644,16 +644,22 @@ static inline void parse_values(parser *const prs, const size_t index, storage *
 	in_set_position(&io, 0);
 	out_set_buffer(&io, MAX_VALUE_SIZE);
 	uni_print_char(&io, '"');
+	char32_t quote = '\0';
+	bool was_slash = false;
 	for (char32_t ch = uni_scan_char(&io); ch != (char32_t)EOF; ch = uni_scan_char(&io))
 	{
-		if (ch == '\\')
+		uni_printf(&io, "%s", ch == '"' || (ch == '\\' && quote != '\0') ? "\\" : "");
+		uni_print_char(&io, ch);
+
+		if (quote == '\0')
 		{
-			ch = uni_scan_char(&io);
-			uni_printf(&io, "%s", ch == '"' ? "\\\\" : ch != (char32_t)EOF ? "\\" : "");
+			quote = ch == '\'' || ch == '"' ? ch : '\0';
+		}
+		else
+		{
+			quote = was_slash || ch != quote ? quote : '\0';
+			was_slash = !was_slash && ch == '\\';
 		}
-
-		uni_printf(&io, "%s", ch == '"' ? "\\" : "");
-		uni_print_char(&io, ch);
 	}
 	uni_print_char(&io, '"');
 	in_clear(&io);
-- 
2.43.0


From a8c062606734091d262aa303f11bf90507e8cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:38 +0000
Subject: [PATCH 25/85] fix: forget the old value of a macro that is redefined
 as empty

---
 libs/macro/storage.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/macro/storage.c b/libs/macro/storage.c
index 26c1808..faad6e3 100644
--- a/libs/macro/storage.c
+++ b/libs/macro/storage.c
@@ -162,10 +162,7 @@ size_t storage_set_by_index(storage *const stg, const size_t id, const char *val
 	}
 
 	const size_t index = strings_add(&stg->vec, value);
-	if (index != SIZE_MAX)
-	{
-		hash_set_by_index(&stg->hs, id, 0, (item_t)index);
-	}
+	hash_set_by_index(&stg->hs, id, 0, index != SIZE_MAX ? (item_t)index : ITEM_MAX);
 	return id;
 }
 
-- 
2.43.0


From e6eb156d596f46d476195de6b3d92dc6a284c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 26/85] fix: replace a parameter by nothing when its macro
 argument is empty

---
 libs/macro/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index c12313c..15f55d7 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -756,8 +756,9 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 		if (ch == '#' || utf8_is_letter(ch))
 		{
 			const size_t current = storage_search(stg, prs->io);
+			const char *const argument = storage_get_by_index(stg, current);
 			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
-				? storage_last_read(stg) : storage_get_by_index(stg, current));
+				? storage_last_read(stg) : argument != NULL ? argument : "");
 		}
 		else if (utf8_is_digit(ch))
 		{
-- 
2.43.0


From 1417c415eeb612638396f4056026439ddc5559c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:12 +0000
Subject: [PATCH 27/85] fix: give escape sequences of character constants their
 value in preprocessor expressions

---
 libs/macro/parser.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 15f55d7..94d7acb 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1359,7 +1359,27 @@ static inline bool parse_sequence(parser *const prs, computer *const comp, const
 		parser_warning(prs, &loc, EXPR_MULTI_CHARACTER);
 	}
 
-	const int res = computer_push_const(comp, pos, utf8_convert(&buffer[1]), buffer);
+	char32_t value = utf8_convert(&buffer[1]);
+	if (value == '\\')
+	{
+		value = utf8_convert(&buffer[2]);
+		switch (value)
+		{
+			case 'n':
+			case U'н':
+				value = '\n';
+				break;
+			case 't':
+			case U'т':
+				value = '\t';
+				break;
+			case '0':
+				value = '\0';
+				break;
+		}
+	}
+
+	const int res = computer_push_const(comp, pos, value, buffer);
 	free(buffer);
 	return res == 0;
 }
-- 
2.43.0


From 2f23aa110c8b1316d6ad1f60cfa275463e16c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:40 +0000
Subject: [PATCH 28/85] fix: end the brackets of a macro call in a directive at
 the end of its line

---
 libs/macro/parser.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 94d7acb..e4b7db9 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -792,10 +792,11 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
  *
  *	@param	prs			Parser structure
  *	@param	index		Index of macro
+ *	@param	is_multiline	Set, if brackets may be on the following lines
  *
  *	@return	@c true on success, @c false on failure
  */
-static bool parse_replacement(parser *const prs, const size_t index)
+static bool parse_replacement(parser *const prs, const size_t index, const bool is_multiline)
 {
 	const size_t expected = storage_get_args_by_index(prs->stg, index);
 	const size_t position = in_get_position(prs->io);
@@ -803,7 +804,7 @@ static bool parse_replacement(parser *const prs, const size_t index)
 
 	if (expected == 0)
 	{
-		if (skip_lines(prs) != '(' || uni_scan_char(prs->io) != '('
+		if ((is_multiline ? skip_lines(prs) : skip_until(prs, false)) != '(' || uni_scan_char(prs->io) != '('
 			|| skip_lines(prs) != ')' || uni_scan_char(prs->io) != ')')
 		{
 			*prs->loc = loc;
@@ -817,7 +818,7 @@ static bool parse_replacement(parser *const prs, const size_t index)
 		return true;
 	}
 
-	if (skip_lines(prs) != '(')
+	if ((is_multiline ? skip_lines(prs) : skip_until(prs, false)) != '(')
 	{
 		*prs->loc = loc;
 		in_set_position(prs->io, position);
@@ -880,7 +881,7 @@ static inline void parse_identifier(parser *const prs)
 		loc_update_begin(prs->loc);
 		in_set_position(prs->io, end);
 
-		parse_replacement(prs, index);
+		parse_replacement(prs, index, true);
 		prs->prev = NULL;
 
 		char32_t character = skip_until(prs, true);
@@ -896,7 +897,7 @@ static inline void parse_identifier(parser *const prs)
 	}
 	else
 	{
-		parse_replacement(prs, index);
+		parse_replacement(prs, index, true);
 	}
 	prs->call--;
 }
@@ -1617,7 +1618,7 @@ static item_t parse_expression(parser *const prs)
 			out_swap(prs->io, &out);
 			prs->call++;
 
-			if (!parse_replacement(prs, index))
+			if (!parse_replacement(prs, index, false))
 			{
 				prs->call--;
 				out_swap(prs->io, &out);
-- 
2.43.0


From 13a88a9da918a7d4df26d6b66318b891807b1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:04 +0000
Subject: [PATCH 29/85] fix: keep the # operator of a macro apart from a name
 that precedes it

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index e4b7db9..13d67ee 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -30,7 +30,7 @@
 
 #define MASK_SUFFIX			"_"
 #define MASK_ARGUMENT		"__ARG_"
-#define MASK_STRING			"__STR_"
+#define MASK_STRING			"#__STR_"
 #define MASK_TOKEN_PASTE	"#__TKP_"
 
 
-- 
2.43.0


From 57aefb4f476310d2a8a9f85a33e5b2eeb87a6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 30/85] fix: fail when an error is reported inside a skipped
 group

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 13d67ee..7b2d125 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -539,7 +539,6 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 static keyword_t skip_block(parser *const prs, const keyword_t begin)
 {
 	universal_io out = io_create();
-	const bool was_error = prs->was_error;
 	const bool is_recovery_disabled = prs->is_recovery_disabled;
 	const bool is_root_macro = begin == KW_MACRO && !prs->is_macro_processed && out_is_correct(prs->io);
 	prs->is_macro_processed = is_root_macro ? true : prs->is_macro_processed;
@@ -547,6 +546,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 	char32_t character = '\0';
 	while (character != (char32_t)EOF)
 	{
+		const bool was_error = prs->was_error;
 		if (!prs->is_macro_processed)
 		{
 			prs->is_recovery_disabled = true;
-- 
2.43.0


From 0d00939c73d6adde430c53acd36555f58e61ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:47 +0000
Subject: [PATCH 31/85] fix: search the next includes relative to the including
 file again

---
 libs/macro/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 7b2d125..7dc438e 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1160,9 +1160,11 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 	}
 
 	parse_extra(prs, storage_last_read(prs->stg));
+	const size_t current = linker_get_index(prs->lk);
 	universal_io header = linker_add_header(prs->lk, index);
 	parser_preprocess(prs, &header);
 	in_clear(&header);
+	linker_set_index(prs->lk, current);
 }
 
 /**
-- 
2.43.0


From 201596ef6a9c84b28d39e67ebff740fae4fafb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:25 +0000
Subject: [PATCH 32/85] fix: keep the path of the current directory when it is
 written with a slash

---
 libs/utils/workspace.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 452f63d..8a9a68a 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -91,7 +91,12 @@ static void ws_unix_path(const char *const path, char *const buffer)
 		i++;
 	}
 
-	buffer[buffer[j - 1] == '/' ? j - 1 : j] = '\0';
+	if (j == 0 && i != 0)
+	{
+		buffer[j++] = '.';
+	}
+
+	buffer[j > 1 && buffer[j - 1] == '/' ? j - 1 : j] = '\0';
 }
 
 static size_t ws_exists(const char *const element, const strings *const vec)
-- 
2.43.0


From c8ff411ded755d5ec1d03b3fd771f0913c416855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 33/85] fix: read one octet of an ill-formed UTF-8 sequence, so
 that it can be returned

---
 libs/utils/uniscanner.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/utils/uniscanner.c b/libs/utils/uniscanner.c
index 66eaaa9..0cd33d0 100644
--- a/libs/utils/uniscanner.c
+++ b/libs/utils/uniscanner.c
@@ -20,6 +20,9 @@
 #include "utf8.h"
 
 
+static const char32_t SUBSTITUTE = 0x1A;
+
+
 int uni_scanf(universal_io *const io, const char *const format, ...)
 {
 	if (!in_is_correct(io))
@@ -46,15 +49,25 @@ char32_t uni_scan_char(universal_io *const io)
 	}
 
 	const size_t size = utf8_symbol_size(buffer[0]);
+	const size_t position = in_get_position(io);
 	for (size_t i = 1; i < size; i++)
 	{
 		if (!uni_scanf(io, "%c", &buffer[i]))
 		{
-			return (char32_t)EOF;
+			in_set_position(io, position);
+			return SUBSTITUTE;
 		}
 	}
 
-	return utf8_convert(buffer);
+	const char32_t character = utf8_convert(buffer);
+	if (utf8_size(character) != size)
+	{
+		// A character has to be as long as it was read to be returned
+		in_set_position(io, position);
+		return SUBSTITUTE;
+	}
+
+	return character;
 }
 
 size_t uni_scan_number(universal_io *const io, char *const buffer)
-- 
2.43.0


From 8ba442c130d156321df3331d2f0f9b63f21ff934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 34/85] fix: do not overflow the buffers of a diagnostic when
 the source line is long

---
 libs/utils/locator.c | 3 ++-
 libs/utils/logger.c  | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 9d035bb..6bee42b 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -24,6 +24,7 @@
 
 
 #define MAX_PATH 1024
+#define MAX_LINE 4096
 
 
 static const size_t FIRST_LINE = 1;
@@ -404,7 +405,7 @@ size_t loc_get_code_line(location *const loc, char *const buffer)
 
 	size_t size = 0;
 	char32_t character = uni_scan_char(loc->io);
-	while (character != '\n' && character != (char32_t)EOF)
+	while (character != '\n' && character != (char32_t)EOF && size + MAX_SYMBOL_SIZE < MAX_LINE)
 	{
 		size += utf8_to_string(&buffer[size], character);
 		character = uni_scan_char(loc->io);
diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index feef1c3..ff765ae 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -252,6 +252,11 @@ static void splice(char *const buffer, const char *const msg, const char *const
 		size++;
 	}
 
+	if (symbol >= size)
+	{
+		return;
+	}
+
 	const size_t ch = literal(line, symbol);
 	const size_t len = length(line, size, ch);
 	if (len == 0)
@@ -288,7 +293,7 @@ static inline void log_main(const logger func, const char *const tag, const char
 		return;
 	}
 
-	char buffer[MAX_MSG_SIZE];
+	char buffer[MAX_MSG_SIZE * 3];
 	splice(buffer, msg, line, symbol);
 
 	func(tag, buffer);
@@ -309,7 +314,7 @@ static inline void log_auto(const logger func, location *const loc, const char *
 		return;
 	}
 
-	char buffer[MAX_MSG_SIZE];
+	char buffer[MAX_MSG_SIZE * 3];
 	splice(buffer, msg, line, loc_get_index(loc));
 
 	func(tag, buffer);
-- 
2.43.0


From e97cfe7c5172110ed218ecee77d3a6757cd336d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 35/85] fix: do not overflow the path buffers when a name is
 too long

---
 libs/macro/linker.c    | 10 ++++++++++
 libs/utils/workspace.c |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index 3e89f65..a4f07b6 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -60,6 +60,11 @@ static void linker_make_path(char *const buffer, const char *const name, const c
 static inline size_t linker_internal_path(linker *const lk, const char *const file)
 {
 	char path[MAX_ARG_SIZE];
+	if (strlen(file) + strlen(ws_get_file(lk->ws, lk->current)) + 2 > MAX_ARG_SIZE)
+	{
+		return SIZE_MAX;
+	}
+
 	linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true);
 
 	if (access(path, F_OK) != -1)
@@ -81,6 +86,11 @@ static inline size_t linker_external_path(linker *const lk, const char *const fi
 	char path[MAX_ARG_SIZE];
 	for (size_t i = 0; i < ws_get_dirs_num(lk->ws); i++)
 	{
+		if (strlen(file) + strlen(ws_get_dir(lk->ws, i)) + 2 > MAX_ARG_SIZE)
+		{
+			continue;
+		}
+
 		linker_make_path(path, file, ws_get_dir(lk->ws, i), false);
 
 		if (access(path, F_OK) != -1)
diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 8a9a68a..b198a44 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -125,7 +125,7 @@ static inline size_t ws_add_string(strings *const vec, const char *const str)
 
 static inline size_t ws_add_path(workspace *const ws, strings *const vec, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return SIZE_MAX;
@@ -266,7 +266,7 @@ int ws_add_flags(workspace *const ws, const char *const *const flags, const size
 
 int ws_set_output(workspace *const ws, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return -1;
-- 
2.43.0


From abf9818295fe759d7f74bc8e2b08a3ffb68c1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 36/85] fix: diagnose a list of macro arguments that the end of
 the file cuts off

---
 libs/macro/parser.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 7dc438e..b16b459 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -698,7 +698,7 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 		size_t brackets = 0;
 
 		out_set_buffer(prs->io, MAX_VALUE_SIZE);
-		while (brackets != 0 || (character != ',' && character != ')' && character != (char32_t)EOF))
+		while (character != (char32_t)EOF && (brackets != 0 || (character != ',' && character != ')')))
 		{
 			uni_printf(prs->io, "%s", in_get_position(prs->io) != position ? " " : "");
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -711,11 +711,12 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 			brackets += character != '(' ? character == ')' ? -1 : 0 : 1;
 			position = in_get_position(prs->io);
 			character = skip_lines(prs);
-			if (character == (char32_t)EOF)
-			{
-				parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
-				arg = SIZE_MAX;
-			}
+		}
+
+		if (character == (char32_t)EOF)
+		{
+			parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
+			arg = SIZE_MAX;
 		}
 
 		if (arg != SIZE_MAX)
-- 
2.43.0


From c7b370d44a3c916b5526b4f5a369f99220d7fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:12 +0000
Subject: [PATCH 37/85] fix: stop replacing macros once the call depth is
 exceeded

---
 libs/macro/parser.c | 31 +++++++++++++++++++++++++++----
 libs/macro/parser.h |  1 +
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index b16b459..e9dadf2 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -845,6 +845,30 @@ static bool parse_replacement(parser *const prs, const size_t index, const bool
 	return expected == actual;
 }
 
+/**
+ *	Check macro call depth.
+ *	Emit an error on @c MAX_CALL_DEPTH reached.
+ *	After that, macros are not replaced until the outermost call ends.
+ *
+ *	@param	prs			Parser structure
+ *
+ *	@return	@c true if macro should not be replaced
+ */
+static bool is_call_exceeded(parser *const prs)
+{
+	if (prs->call == 0)
+	{
+		prs->is_call_exceeded = false;
+	}
+	else if (prs->call > MAX_CALL_DEPTH && !prs->is_call_exceeded)
+	{
+		parser_error(prs, NULL, CALL_DEPTH);
+		prs->is_call_exceeded = true;
+	}
+
+	return prs->is_call_exceeded;
+}
+
 /**
  *	Parse and replace identifier, if macro name recognized.
  *	Emit an error on @c MAX_CALL_DEPTH reached.
@@ -863,9 +887,8 @@ static inline void parse_identifier(parser *const prs)
 		return;
 	}
 
-	if (prs->call > MAX_CALL_DEPTH)
+	if (is_call_exceeded(prs))
 	{
-		parser_error(prs, NULL, CALL_DEPTH);
 		uni_printf(prs->io, "%s", storage_last_read(prs->stg));
 		return;
 	}
@@ -1602,9 +1625,8 @@ static item_t parse_expression(parser *const prs)
 				continue;
 			}
 
-			if (prs->call > MAX_CALL_DEPTH)
+			if (is_call_exceeded(prs))
 			{
-				parser_error(prs, NULL, CALL_DEPTH);
 				break;
 			}
 
@@ -2484,6 +2506,7 @@ parser parser_create(linker *const lk, storage *const stg, universal_io *const o
 
 	prs.is_recovery_disabled = false;
 	prs.is_line_required = false;
+	prs.is_call_exceeded = false;
 	prs.is_macro_processed = false;
 	prs.was_error = false;
 
diff --git a/libs/macro/parser.h b/libs/macro/parser.h
index 7cc8d81..12f0496 100644
--- a/libs/macro/parser.h
+++ b/libs/macro/parser.h
@@ -42,6 +42,7 @@ typedef struct parser
 
 	bool is_recovery_disabled;		/**< Set, if error recovery & multiple output disabled */
 	bool is_line_required;			/**< Set, if position directive required */
+	bool is_call_exceeded;			/**< Set, if macro call depth exceeded */
 	bool is_macro_processed;		/**< Set, if macro block processed */
 	bool was_error;					/**< Set, if error message occurred */
 } parser;
-- 
2.43.0


From e9d7e6388491163c18eb7019d8a1ab0577fc92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:02 +0000
Subject: [PATCH 38/85] fix: do not fold the division of the least integer by
 minus one

---
 libs/compiler/builder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index c45feb6..fffe7b4 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -153,7 +153,8 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 			const item_t right_value = expression_literal_get_integer(RHS);
 
 			// Такие операции не имеют значения, их вычисление остаётся на время исполнения
-			if (((op == BIN_DIV || op == BIN_REM) && right_value == 0)
+			if (((op == BIN_DIV || op == BIN_REM)
+					&& (right_value == 0 || (right_value == -1 && left_value == INT64_MIN)))
 				|| ((op == BIN_SHL || op == BIN_SHR) && (right_value < 0 || right_value > 31)))
 			{
 				return expression_binary(type, LHS, RHS, op, loc);
-- 
2.43.0


From 067d95233c2c01ae4e3dfa2fc03e03564de377c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:54 +0000
Subject: [PATCH 39/85] fix: reject a flag that is too long for its buffer

---
 libs/utils/workspace.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index b198a44..0a0a9f1 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -255,7 +255,18 @@ size_t ws_add_flag(workspace *const ws, const char *const flag)
 		return SIZE_MAX;
 	}
 
-	return ws_is_dir_flag(flag) ? ws_add_dir(ws, &flag[2]) : ws_add_string(&ws->flags, flag);
+	if (ws_is_dir_flag(flag))
+	{
+		return ws_add_dir(ws, &flag[2]);
+	}
+
+	if (strlen(flag) >= MAX_ARG_SIZE)
+	{
+		ws_add_error(ws);
+		return SIZE_MAX;
+	}
+
+	return ws_add_string(&ws->flags, flag);
 }
 
 int ws_add_flags(workspace *const ws, const char *const *const flags, const size_t num)
-- 
2.43.0


From a7ace2b9309d60acb3690c7fbc07b30879467b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:15 +0000
Subject: [PATCH 40/85] fix: do not overflow the buffer of a directive that is
 skipped

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index e9dadf2..3927f01 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -582,7 +582,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 		if (keyword != NON_KEYWORD)
 		{
 			loc = parse_location(prs);
-			sprintf(directive, "%s", storage_last_read(prs->stg));
+			snprintf(directive, MAX_KEYWORD_SIZE, "%s", storage_last_read(prs->stg));
 		}
 
 		while (true)
-- 
2.43.0


From bff0a253c8d55af889f38a6be1173e4f71a5cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:37 +0000
Subject: [PATCH 41/85] fix: do not overflow the buffer of a message when a
 name is long

---
 libs/compiler/errors.c |  6 +++---
 libs/macro/error.c     | 40 ++++++++++++++++++++--------------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 53f6544..d9d18ed 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -310,7 +310,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 			sprintf(msg, "в каждой программе должна быть ГЛАВНАЯ функция");
 			break;
 		case predef_but_notdef: // need_test
-			sprintf(msg, "функция %s была предопределена, но не описана", va_arg(args, char *));
+			snprintf(msg, MAX_MSG_SIZE, "функция %s была предопределена, но не описана", va_arg(args, char *));
 			break;
 
 		// Other errors
@@ -340,10 +340,10 @@ static void get_error(const err_t num, char *const msg, va_list args)
 				"идентификаторов-параметров), а тут тело функции");
 			break;
 		case repeated_decl:	// test_exist
-			sprintf(msg, "повторное описание идентификатора %s", va_arg(args, char *));
+			snprintf(msg, MAX_MSG_SIZE, "повторное описание идентификатора %s", va_arg(args, char *));
 			break;
 		case ident_is_not_declared: // test_exist
-			sprintf(msg, "не описан идентификатор %s", va_arg(args, char *));
+			snprintf(msg, MAX_MSG_SIZE, "не описан идентификатор %s", va_arg(args, char *));
 			break;
 		case not_const_int_expr:
 			sprintf(msg, "должно быть константное выражение типа int");
diff --git a/libs/macro/error.c b/libs/macro/error.c
index d7e7053..baea754 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -94,31 +94,31 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case DIRECTIVE_NAME_NON:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "в директиве %s пропущено имя макроса", directive);
+			snprintf(msg, MAX_MSG_SIZE, "в директиве %s пропущено имя макроса", directive);
 		}
 		break;
 		case DIRECTIVE_INVALID:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "неизвестная директива препроцессора %s", directive);
+			snprintf(msg, MAX_MSG_SIZE, "неизвестная директива препроцессора %s", directive);
 		}
 		break;
 		case DIRECTIVE_FORBIDDEN:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "использование директивы %s внутри макроса запрещено", directive);
+			snprintf(msg, MAX_MSG_SIZE, "использование директивы %s внутри макроса запрещено", directive);
 		}
 		break;
 		case DIRECTIVE_UNTERMINATED:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "незавершённая директива %s", directive);
+			snprintf(msg, MAX_MSG_SIZE, "незавершённая директива %s", directive);
 		}
 		break;
 		case DIRECTIVE_NO_EXPRESSION:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "в директиве %s пропущено условие", directive);
+			snprintf(msg, MAX_MSG_SIZE, "в директиве %s пропущено условие", directive);
 		}
 		break;
 		case DIRECTIVE_WITHOUT:
@@ -143,14 +143,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case HASH_NOT_FOLLOWED:
 		{
 			const char *const hash = va_arg(args, char *);
-			sprintf(msg, "'%s' не сопровождается параметром макроса", hash);
+			snprintf(msg, MAX_MSG_SIZE, "'%s' не сопровождается параметром макроса", hash);
 		}
 		break;
 
 		case INCLUDE_EXPECTS_FILENAME:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "%s ожидает \"ИМЯФАЙЛА\" или <ИМЯФАЙЛА>", directive);
+			snprintf(msg, MAX_MSG_SIZE, "%s ожидает \"ИМЯФАЙЛА\" или <ИМЯФАЙЛА>", directive);
 		}
 		break;
 		case INCLUDE_NO_SUCH_FILE:
@@ -163,7 +163,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_DUPLICATE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "дублирующий макро параметр " QUOTE "%s" QUOTE, name);
+			snprintf(msg, MAX_MSG_SIZE, "дублирующий макро параметр " QUOTE "%s" QUOTE, name);
 		}
 		break;
 		case ARGS_EXPECTED_NAME:
@@ -203,7 +203,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_UNTERMINATED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "незавершённый список аргументов, вызываемый макрос " QUOTE "%s" QUOTE, name);
+			snprintf(msg, MAX_MSG_SIZE, "незавершённый список аргументов, вызываемый макрос " QUOTE "%s" QUOTE, name);
 		}
 		break;
 		case ARGS_REQUIRES:
@@ -216,7 +216,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = expected % 10 == 0 || expected % 10 >= 5
 				|| (expected % 100 >= 11 && expected % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
+			snprintf(msg, MAX_MSG_SIZE, "макросу " QUOTE "%s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
 					, name, expected, one ? "" : many ? "ов" : "а"
 					, actual % 10 == 1 && actual % 100 != 11 ? "" : "о", actual);
 		}
@@ -231,14 +231,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = actual % 10 == 0 || actual % 10 >= 5
 				|| (actual % 100 >= 11 && actual % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
+			snprintf(msg, MAX_MSG_SIZE, "макросу " QUOTE "%s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
 					, name, one ? "" : "о", actual, one ? "" : many ? "ов" : "а", expected);
 		}
 		break;
 		case ARGS_NON:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " не передано аргументов", name);
+			snprintf(msg, MAX_MSG_SIZE, "макросу " QUOTE "%s" QUOTE " не передано аргументов", name);
 		}
 		break;
 
@@ -248,19 +248,19 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_INVALID_SUFFIX:
 		{
 			const char *const suffix = va_arg(args, char *);
-			sprintf(msg, "недопустимый суффикс " QUOTE "%s" QUOTE " в целочисленной константе", suffix);
+			snprintf(msg, MAX_MSG_SIZE, "недопустимый суффикс " QUOTE "%s" QUOTE " в целочисленной константе", suffix);
 		}
 		break;
 		case EXPR_INVALID_TOKEN:
 		{
 			const char *const token = va_arg(args, char *);
-			sprintf(msg, "недопустимый токен " QUOTE "%s" QUOTE " в выражении препроцессора", token);
+			snprintf(msg, MAX_MSG_SIZE, "недопустимый токен " QUOTE "%s" QUOTE " в выражении препроцессора", token);
 		}
 		break;
 		case EXPR_MISSING_BINARY:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "пропущен бинарный оператор перед токеном " QUOTE "%s" QUOTE, operator);
+			snprintf(msg, MAX_MSG_SIZE, "пропущен бинарный оператор перед токеном " QUOTE "%s" QUOTE, operator);
 		}
 		break;
 		case EXPR_MISSING_BRACKET:
@@ -278,13 +278,13 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_NO_LEFT_OPERAND:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "в операторе '%s' отсутствует левый операнд", operator);
+			snprintf(msg, MAX_MSG_SIZE, "в операторе '%s' отсутствует левый операнд", operator);
 		}
 		break;
 		case EXPR_NO_RIGHT_OPERAND:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
+			snprintf(msg, MAX_MSG_SIZE, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
 		case EXPR_ZERO_DIVISION:
@@ -307,20 +307,20 @@ static void get_warning(const warning_t num, char *const msg, va_list args)
 		case MACRO_NAME_UNDEFINED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " не определён", name);
+			snprintf(msg, MAX_MSG_SIZE, "макрос " QUOTE "%s" QUOTE " не определён", name);
 		}
 		break;
 		case MACRO_NAME_REDEFINE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " уже существует", name);
+			snprintf(msg, MAX_MSG_SIZE, "макрос " QUOTE "%s" QUOTE " уже существует", name);
 		}
 		break;
 
 		case DIRECTIVE_EXTRA_TOKENS:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "дополнительные токены в конце директивы %s", directive);
+			snprintf(msg, MAX_MSG_SIZE, "дополнительные токены в конце директивы %s", directive);
 		}
 		break;
 		case DIRECTIVE_LINE_SKIPED:
-- 
2.43.0


From 025704a19a0ef3e81f76e6a6ca24fb8bc4bf2bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 42/85] fix: count the column of an ill-formed line the way it
 is read

---
 libs/utils/locator.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 6bee42b..55aeb90 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -47,13 +47,13 @@ static void line_to_begin(universal_io *const io, size_t *const symbol, size_t *
 		return;
 	}
 
+	const size_t end = position;
 	char ch = '\0';
 	in_set_position(io, --position);
 	uni_scanf(io, "%c", &ch);
 
 	while (ch != '\n')
 	{
-		*symbol += 2 - utf8_symbol_size(ch);
 		*filler = ch == ' ' || ch == '\t' ? (*filler) + 1 : FIRST_SYMBOL;
 
 		if (position == 0)
@@ -65,6 +65,14 @@ static void line_to_begin(universal_io *const io, size_t *const symbol, size_t *
 		in_set_position(io, --position);
 		uni_scanf(io, "%c", &ch);
 	}
+
+	const size_t begin = in_get_position(io);
+	while (in_get_position(io) < end && uni_scan_char(io) != (char32_t)EOF)
+	{
+		(*symbol)++;
+	}
+
+	in_set_position(io, begin);
 }
 
 static inline void line_to_end(universal_io *const io)
-- 
2.43.0


From acfe575e1de1f0349b2a7f0ae11e48917c959443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 43/85] fix: end the traversal of a tree that has only the root

---
 libs/utils/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index ec61993..b4eb23a 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -205,7 +205,7 @@ node node_get_next(const node *const nd)
 
 	if (node_get_amount(nd) == 0)
 	{
-		item_t index = vector_get(nd->tree, ref_get_next(nd));
+		item_t index = nd->index != 0 ? vector_get(nd->tree, ref_get_next(nd)) : 0;
 		while (is_negative(index))
 		{
 			// Get next reference from parent
-- 
2.43.0


From 41c5be5bda6940ca40e7a26c66d77d421b52a72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 44/85] fix: no key for an index that is not a record of the
 hash table

---
 libs/utils/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/hash.h b/libs/utils/hash.h
index 625ddbf..6de6318 100644
--- a/libs/utils/hash.h
+++ b/libs/utils/hash.h
@@ -155,7 +155,7 @@ EXPORTED size_t hash_set_int64(hash *const hs, const item_t key, const size_t nu
  */
 inline item_t hash_get_key(const hash *const hs, const size_t index)
 {
-	return vector_get(hs, index + 1);
+	return index != SIZE_MAX ? vector_get(hs, index + 1) : ITEM_MAX;
 }
 
 /**
-- 
2.43.0


From f0f86d7719ec110fa3bd3f56cb4c627303975843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 45/85] fix: report the failure of setting a double or 64-bit
 value of a hash table

---
 libs/utils/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/utils/hash.c b/libs/utils/hash.c
index 769a008..3f33b6f 100644
--- a/libs/utils/hash.c
+++ b/libs/utils/hash.c
@@ -168,13 +168,13 @@ size_t hash_set(hash *const hs, const item_t key, const size_t num, const item_t
 size_t hash_set_double(hash *const hs, const item_t key, const size_t num, const double value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != DBL_MAX ? index : SIZE_MAX;
+	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 size_t hash_set_int64(hash *const hs, const item_t key, const size_t num, const int64_t value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != LLONG_MAX ? index : SIZE_MAX;
+	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 
-- 
2.43.0


From fc9a5e9319a97755215d5e5f3e075c4ba44a7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 46/85] fix: no last read key in a new map

---
 libs/utils/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/utils/map.c b/libs/utils/map.c
index d3e03fb..f289f98 100644
--- a/libs/utils/map.c
+++ b/libs/utils/map.c
@@ -281,6 +281,7 @@ map map_create(const size_t alloc)
 	}
 
 	as.keys_size = 0;
+	as.keys_next = 0;
 	as.keys_alloc = as.values_alloc * MAP_KEY_SIZE;
 
 	as.keys = malloc(as.keys_alloc * sizeof(char));
-- 
2.43.0


From f79a213afb5760f2a358a89e7c1bab17d86d3779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 47/85] fix: check an index close to the maximum in the double
 and 64-bit access to a vector

---
 libs/utils/vector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/utils/vector.c b/libs/utils/vector.c
index 2633b7f..67f5e27 100644
--- a/libs/utils/vector.c
+++ b/libs/utils/vector.c
@@ -112,7 +112,7 @@ int vector_set(vector *const vec, const size_t index, const item_t value)
 
 size_t vector_set_double(vector *const vec, const size_t index, const double value)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < DOUBLE_SIZE || index > vec->size - DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -122,7 +122,7 @@ size_t vector_set_double(vector *const vec, const size_t index, const double val
 
 size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < INT64_SIZE || index > vec->size - INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -143,7 +143,7 @@ item_t vector_get(const vector *const vec, const size_t index)
 
 double vector_get_double(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < DOUBLE_SIZE || index > vec->size - DOUBLE_SIZE)
 	{
 		return DBL_MAX;
 	}
@@ -153,7 +153,7 @@ double vector_get_double(const vector *const vec, const size_t index)
 
 int64_t vector_get_int64(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < INT64_SIZE || index > vec->size - INT64_SIZE)
 	{
 		return LLONG_MAX;
 	}
-- 
2.43.0


From 075d385aaf145033bae4dc7ff74d517c7b26e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 48/85] fix: check a number close to the maximum in the double
 and 64-bit access to hash tables and nodes

---
 libs/utils/hash.h | 12 ++++++++----
 libs/utils/tree.c |  8 ++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libs/utils/hash.h b/libs/utils/hash.h
index 6de6318..ecfe971 100644
--- a/libs/utils/hash.h
+++ b/libs/utils/hash.h
@@ -198,7 +198,8 @@ inline item_t hash_get_by_index(const hash *const hs, const size_t index, const
  */
 inline double hash_get_double_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
+	const size_t amount = hash_get_amount_by_index(hs, index);
+	return num < amount && num + DOUBLE_SIZE <= amount ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
 }
 
 /**
@@ -212,7 +213,8 @@ inline double hash_get_double_by_index(const hash *const hs, const size_t index,
  */
 inline int64_t hash_get_int64_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
+	const size_t amount = hash_get_amount_by_index(hs, index);
+	return num < amount && num + INT64_SIZE <= amount ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
 }
 
 
@@ -243,7 +245,8 @@ inline int hash_set_by_index(hash *const hs, const size_t index, const size_t nu
  */
 inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const size_t num, const double value)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
+	const size_t amount = hash_get_amount_by_index(hs, index);
+	return num < amount && num + DOUBLE_SIZE <= amount ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 /**
@@ -258,7 +261,8 @@ inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const
  */
 inline size_t hash_set_int64_by_index(hash *const hs, const size_t index, const size_t num, const int64_t value)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
+	const size_t amount = hash_get_amount_by_index(hs, index);
+	return num < amount && num + INT64_SIZE <= amount ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 
diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index b4eb23a..97f1ec4 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -180,12 +180,12 @@ item_t node_get_arg(const node *const nd, const size_t index)
 
 double node_get_arg_double(const node *const nd, const size_t index)
 {
-	return index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
+	return index < node_get_argc(nd) && index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
 }
 
 int64_t node_get_arg_int64(const node *const nd, const size_t index)
 {
-	return index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
+	return index < node_get_argc(nd) && index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
 }
 
 size_t node_get_amount(const node *const nd)
@@ -340,7 +340,7 @@ int node_set_arg(const node *const nd, const size_t index, const item_t arg)
 
 size_t node_set_arg_double(const node *const nd, const size_t index, const double arg)
 {
-	if (index + DOUBLE_SIZE > node_get_argc(nd))
+	if (index >= node_get_argc(nd) || index + DOUBLE_SIZE > node_get_argc(nd))
 	{
 		return SIZE_MAX;
 	}
@@ -350,7 +350,7 @@ size_t node_set_arg_double(const node *const nd, const size_t index, const doubl
 
 size_t node_set_arg_int64(const node *const nd, const size_t index, const int64_t arg)
 {
-	if (index + INT64_SIZE > node_get_argc(nd))
+	if (index >= node_get_argc(nd) || index + INT64_SIZE > node_get_argc(nd))
 	{
 		return SIZE_MAX;
 	}
-- 
2.43.0


From 0d1776903e5d9afd822338fc7929261ec7c2b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 49/85] fix: print no warnings when -Wno is given

---
 libs/compiler/reporter.c |  2 +-
 libs/macro/macro.c       | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/reporter.c b/libs/compiler/reporter.c
index 4f8c828..1d3a3d9 100644
--- a/libs/compiler/reporter.c
+++ b/libs/compiler/reporter.c
@@ -51,7 +51,7 @@ void report_error(reporter *const rprt, universal_io *const io, const location l
 
 void report_warning(reporter *const rprt, universal_io *const io, const location loc, const warning_t num, va_list args)
 {
-	if (rprt->is_recovery_disabled && rprt->errors != 0)
+	if (rprt->is_recovery_disabled)
 	{
 		return;
 	}
diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index e081b5d..d5a20a4 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -25,7 +25,7 @@
 static const size_t OUT_BUFFER_SIZE = 1024;
 
 
-static inline size_t ws_parse_name(const char *const name, char32_t *const buffer)
+static inline size_t ws_parse_name(const char *const name, char32_t *const buffer, const bool is_warning_disabled)
 {
 	buffer[0] = utf8_convert(&name[0]);
 	if (buffer[0] == '\0' || buffer[0] == '=')
@@ -58,7 +58,11 @@ static inline size_t ws_parse_name(const char *const name, char32_t *const buffe
 	}
 	else
 	{
-		macro_system_warning(NULL, MACRO_CONSOLE_SEPARATOR);
+		if (!is_warning_disabled)
+		{
+			macro_system_warning(NULL, MACRO_CONSOLE_SEPARATOR);
+		}
+
 		j -= utf8_size(buffer[i]);
 		buffer[i] = '\0';
 		return j;
@@ -67,6 +71,8 @@ static inline size_t ws_parse_name(const char *const name, char32_t *const buffe
 
 static inline int ws_parse(const workspace *const ws, storage *const stg)
 {
+	const bool is_warning_disabled = ws_has_flag(ws, "-Wno");
+
 	for (size_t i = 0; i < ws_get_flags_num(ws); i++)
 	{
 #ifdef _WIN32
@@ -80,7 +86,7 @@ static inline int ws_parse(const workspace *const ws, storage *const stg)
 		{
 			char32_t name[MAX_ARG_SIZE];
 
-			const size_t index = ws_parse_name(&flag[2], name);
+			const size_t index = ws_parse_name(&flag[2], name, is_warning_disabled);
 			if (index == SIZE_MAX)
 			{
 				return -1;
-- 
2.43.0


From 71b49d3791d48de98a90e8f65b92881995f3c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 50/85] fix: fail when the output file cannot be written
 completely

---
 libs/compiler/compiler.c |  7 ++++++-
 libs/macro/macro.c       |  7 ++++++-
 libs/utils/uniio.c       | 12 +++++++++---
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/libs/compiler/compiler.c b/libs/compiler/compiler.c
index 5c88ed7..1aa2561 100644
--- a/libs/compiler/compiler.c
+++ b/libs/compiler/compiler.c
@@ -86,7 +86,12 @@ static status_t compile_from_io(const workspace *const ws, universal_io *const i
 	}
 
 	sx_clear(&sx);
-	io_erase(io);
+	if (io_erase(io) && !ret)
+	{
+		error_msg("невозможно записать выходной файл");
+		return sts_system_error;
+	}
+
 	return ret ? sts : sts_success;
 }
 
diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index d5a20a4..4530bf6 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -194,7 +194,12 @@ int macro_to_file(workspace *const ws, const char *const path)
 
 	int ret = macro_form_io(ws, &io);
 
-	io_erase(&io);
+	if (io_erase(&io) && !ret)
+	{
+		macro_system_error(TAG_LINKER, LINKER_WRONG_IO);
+		ret = -1;
+	}
+
 	return ret;
 }
 
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 6218fdc..2c7f413 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -608,7 +608,12 @@ int out_close_file(universal_io *const io)
 		return -1;
 	}
 
-	int ret = fclose(io->out_file);
+	int ret = ferror(io->out_file) ? EOF : 0;
+	if (fclose(io->out_file))
+	{
+		ret = EOF;
+	}
+
 	io->out_file = NULL;
 
 	return ret;
@@ -621,9 +626,10 @@ int out_clear(universal_io *const io)
 		return -1;
 	}
 
+	int ret = 0;
 	if (out_is_file(io))
 	{
-		out_close_file(io);
+		ret = out_close_file(io) ? -1 : 0;
 	}
 	else if (out_is_buffer(io))
 	{
@@ -635,7 +641,7 @@ int out_clear(universal_io *const io)
 	}
 
 	io->out_func = NULL;
-	return 0;
+	return ret;
 }
 
 
-- 
2.43.0


From 8a02fb299054d396997611b91673096f03a25dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 51/85] fix: open source files that may only be read

---
 libs/utils/uniio.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 2c7f413..3833e92 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -265,12 +265,23 @@ int in_set_file(universal_io *const io, const char *const path)
 		return -1;
 	}
 
-	io->in_file = fopen(path, "r+b");
+	io->in_file = fopen(path, "rb");
 	if (io->in_file == NULL)
 	{
 		return -1;
 	}
 
+	// Directory can be opened for reading, but not read
+	const int ch = fgetc(io->in_file);
+	if (ch == EOF && ferror(io->in_file))
+	{
+		fclose(io->in_file);
+		io->in_file = NULL;
+		return -1;
+	}
+
+	ungetc(ch, io->in_file);
+
 	io->in_position = 0;
 
 	io->in_func = &in_func_file;
-- 
2.43.0


From c1d1f08e78d3f8a76ebf868434c88cce875503d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 52/85] fix: report an included file that cannot be opened

---
 libs/macro/linker.c |  5 +++++
 libs/macro/linker.h | 10 ++++++++++
 libs/macro/parser.c |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index a4f07b6..abae9e6 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -154,6 +154,11 @@ universal_io linker_add_header(linker *const lk, const size_t index)
 	return input;
 }
 
+bool linker_is_included(const linker *const lk, const size_t index)
+{
+	return linker_is_correct(lk) && vector_get(&lk->included, index) == 1;
+}
+
 
 size_t linker_search_internal(linker *const lk, const char *const file)
 {
diff --git a/libs/macro/linker.h b/libs/macro/linker.h
index bf1bdf3..a425f3a 100644
--- a/libs/macro/linker.h
+++ b/libs/macro/linker.h
@@ -70,6 +70,16 @@ universal_io linker_add_source(linker *const lk, const size_t index);
  */
 universal_io linker_add_header(linker *const lk, const size_t index);
 
+/**
+ *	Check that source or header was added
+ *
+ *	@param	lk				Linker structure
+ *	@param	index			Source or header index
+ *
+ *	@return	@c 1 on true, @c 0 on false
+ */
+bool linker_is_included(const linker *const lk, const size_t index);
+
 
 /**
  *	Search file into same folder first
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 3927f01..a77af62 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1186,6 +1186,12 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 	parse_extra(prs, storage_last_read(prs->stg));
 	const size_t current = linker_get_index(prs->lk);
 	universal_io header = linker_add_header(prs->lk, index);
+	if (!linker_is_included(prs->lk, index))
+	{
+		parser_error(prs, &loc, INCLUDE_NO_SUCH_FILE);
+		return;
+	}
+
 	parser_preprocess(prs, &header);
 	in_clear(&header);
 	linker_set_index(prs->lk, current);
-- 
2.43.0


From b332beb87d993a9e59e5473381f50fb0c9b50903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 53/85] fix: fail when a source file cannot be read to its end

---
 libs/macro/macro.c  |  6 +++++-
 libs/macro/parser.c |  6 +++++-
 libs/utils/uniio.c  | 15 +++++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index 4530bf6..2cc1a7d 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -132,7 +132,11 @@ static int macro_form_io(workspace *const ws, universal_io *const output)
 		}
 
 		ret |= parser_preprocess(&prs, &in);
-		in_clear(&in);
+		if (in_is_correct(&in) && in_clear(&in))
+		{
+			macro_system_error(TAG_LINKER, LINKER_CANNOT_OPEN);
+			ret = -1;
+		}
 	}
 
 	parser_clear(&prs);
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index a77af62..c4bbc5d 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1193,7 +1193,11 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 	}
 
 	parser_preprocess(prs, &header);
-	in_clear(&header);
+	if (in_is_correct(&header) && in_clear(&header))
+	{
+		parser_error(prs, &loc, INCLUDE_NO_SUCH_FILE);
+	}
+
 	linker_set_index(prs->lk, current);
 }
 
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 3833e92..4767b5b 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -432,7 +432,12 @@ int in_close_file(universal_io *const io)
 		return -1;
 	}
 
-	int ret = fclose(io->in_file);
+	int ret = ferror(io->in_file) ? EOF : 0;
+	if (fclose(io->in_file))
+	{
+		ret = EOF;
+	}
+
 	io->in_file = NULL;
 
 	io->in_position = 0;
@@ -447,9 +452,10 @@ int in_clear(universal_io *const io)
 		return -1;
 	}
 
+	int ret = 0;
 	if (in_is_file(io))
 	{
-		in_close_file(io);
+		ret = in_close_file(io) ? -1 : 0;
 	}
 	else if (in_is_buffer(io))
 	{
@@ -464,7 +470,7 @@ int in_clear(universal_io *const io)
 	}
 
 	io->in_func = NULL;
-	return 0;
+	return ret;
 }
 
 
@@ -658,5 +664,6 @@ int out_clear(universal_io *const io)
 
 int io_erase(universal_io *const io)
 {
-	return in_clear(io) || out_clear(io) ? -1 : 0;
+	const int ret = in_clear(io);
+	return out_clear(io) || ret ? -1 : 0;
 }
-- 
2.43.0


From eacba292952fe4a64e550b921e1f179fdd4b94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 54/85] fix: do not cut paths of more than 256 octets and
 survive paths that cannot be found

---
 libs/utils/uniio.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 4767b5b..6430bfa 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -30,6 +30,7 @@
 	#include <unistd.h>
 
 	#define MAX_LINK_SIZE 20
+	#define MAX_FILE_PATH_SIZE (MAX_ARG_SIZE - 8)
 #endif
 
 #define MAX_FORMAT_SIZE 128
@@ -209,16 +210,16 @@ static inline size_t io_get_path(FILE *const file, char *const buffer)
 #else
 	char link[MAX_LINK_SIZE];
 	sprintf(link, "/proc/self/fd/%d", fileno(file));
-	int ret = readlink(link, buffer, 256);
+	const ssize_t ret = readlink(link, buffer, MAX_FILE_PATH_SIZE);
 
 	if (ret == -1)
 	{
 		buffer[0] = '\0';
-		return -1;
+		return 0;
 	}
 
 	buffer[ret] = '\0';
-	return ret;
+	return (size_t)ret;
 #endif
 }
 
-- 
2.43.0


From 39f7850240d37b10a005db3409b4c83429c758d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 55/85] fix: do not increment or decrement constants

---
 libs/compiler/builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index fffe7b4..9b34877 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -822,6 +822,12 @@ node build_unary_expression(builder *const bldr, node *const operand, const unar
 				return node_broken();
 			}
 
+			if (type_is_const(bldr->sx, operand_type))
+			{
+				semantic_error(bldr, op_loc, assign_to_const);
+				return node_broken();
+			}
+
 			return expression_unary(operand_type, RVALUE, operand, op_kind, loc);
 		}
 
-- 
2.43.0


From 2736b1420f66edc4cbc5bd66dc574bdd6ba694c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 56/85] fix: keep the elements of a constant array constant

---
 libs/compiler/builder.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 9b34877..db107dd 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -638,7 +638,11 @@ node build_subscript_expression(builder *const bldr, node *const base, node *con
 		return node_broken();
 	}
 
-	const item_t element_type = type_array_get_element_type(bldr->sx, base_type);
+	item_t element_type = type_array_get_element_type(bldr->sx, base_type);
+	if (type_is_const(bldr->sx, base_type) && !type_is_const(bldr->sx, element_type))
+	{
+		element_type = type_const(bldr->sx, element_type);
+	}
 
 	const location loc = { node_get_location(base).begin, r_loc.end };
 	return expression_subscript(element_type, base, index, loc);
-- 
2.43.0


From 1687e4cb0b5304e3aba0d1226432f8f1d6e6182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 57/85] fix: compare and choose between values that differ only
 in const

---
 libs/compiler/builder.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index db107dd..ee2b948 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -56,6 +56,14 @@ static void semantic_warning(builder *const bldr, const location loc, warning_t
 }
 
 
+static bool types_are_compatible(const syntax *const sx, const item_t first, const item_t second)
+{
+	const item_t first_unqualified = type_is_const(sx, first) ? type_const_get_unqualified_type(sx, first) : first;
+	const item_t second_unqualified = type_is_const(sx, second) ? type_const_get_unqualified_type(sx, second) : second;
+
+	return first_unqualified == second_unqualified;
+}
+
 static item_t usual_arithmetic_conversions(const syntax *const sx, node *const LHS, node *const RHS)
 {
 	const item_t LHS_type = expression_get_type(LHS);
@@ -1001,7 +1009,7 @@ node build_binary_expression(builder *const bldr, node *const LHS, node *const R
 
 			if ((type_is_pointer(bldr->sx, left_type) && type_is_null_pointer(right_type))
 				|| (type_is_null_pointer(left_type) && type_is_pointer(bldr->sx, right_type))
-				|| left_type == right_type)
+				|| types_are_compatible(bldr->sx, left_type, right_type))
 			{
 				return fold_binary_expression(bldr, TYPE_BOOLEAN, LHS, RHS, op_kind, loc);
 			}
@@ -1106,7 +1114,7 @@ node build_ternary_expression(builder *const bldr, node *const cond, node *const
 	}
 
 	if ((type_is_null_pointer(LHS_type) && type_is_pointer(bldr->sx, RHS_type))
-		|| (LHS_type == RHS_type))
+		|| types_are_compatible(bldr->sx, LHS_type, RHS_type))
 	{
 		return expression_ternary(RHS_type, cond, LHS, RHS, loc);
 	}
-- 
2.43.0


From 63bdf9c6f1370bb58297fcaa620390d195f4a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 58/85] fix: report an array bound that is a constant below one

---
 libs/compiler/builder.c | 22 ++++++++++++++--------
 libs/compiler/errors.c  |  3 +++
 libs/compiler/errors.h  |  1 +
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index ee2b948..664a886 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -454,6 +454,18 @@ builder builder_create(syntax *const sx)
 }
 
 
+static void check_bound(builder *const bldr, const node *const bound)
+{
+	if (!type_is_integer(bldr->sx, expression_get_type(bound)))
+	{
+		semantic_error(bldr, node_get_location(bound), array_size_must_be_int);
+	}
+	else if (expression_get_class(bound) == EXPR_LITERAL && expression_literal_get_integer(bound) <= 0)
+	{
+		semantic_error(bldr, node_get_location(bound), array_size_must_be_positive);
+	}
+}
+
 bool check_assignment_operands(builder *const bldr, const item_t expected_type, node *const init, const bool is_declaration)
 {
 	if (!node_is_correct(init))
@@ -1181,10 +1193,7 @@ node build_member_declaration(builder *const bldr, const item_t type, const size
 	{
 		const node bound = node_vector_get(bounds, i);
 		member_type = type_array(bldr->sx, member_type);
-		if (!type_is_integer(bldr->sx, expression_get_type(&bound)))
-		{
-			semantic_error(bldr, node_get_location(&bound), array_size_must_be_int);
-		}
+		check_bound(bldr, &bound);
 	}
 
 	return declaration_member(&bldr->context, member_type, name, bounds, loc);
@@ -1252,10 +1261,7 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 	{
 		const node bound = node_vector_get(bounds, i);
 		variable_type = type_array(bldr->sx, variable_type);
-		if (!type_is_integer(bldr->sx, expression_get_type(&bound)))
-		{
-			semantic_error(bldr, node_get_location(&bound), array_size_must_be_int);
-		}
+		check_bound(bldr, &bound);
 		if (expression_get_class(&bound) == EXPR_EMPTY_BOUND)
 		{
 			has_empty_bounds = true;
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index d9d18ed..7df04f9 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -393,6 +393,9 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case pnt_before_array:	// test_exist
 			sprintf(msg, "в РуСи не бывает указателей на массивы");
 			break;
+		case array_size_must_be_positive:
+			sprintf(msg, "размер массива должен быть больше нуля");
+			break;
 		case array_size_must_be_int:	// test_exist
 			sprintf(msg, "размер массива может иметь тип только ЦЕЛ или ЛИТЕРА");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index 5adec86..343ecb4 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -146,6 +146,7 @@ typedef enum ERROR
 	wrong_struct,
 	pnt_before_array,
 	array_size_must_be_int,
+	array_size_must_be_positive,
 	no_semicolon_in_struct,
 	no_comma_in_enum,
 	wait_ident_after_semicolon_in_struct,
-- 
2.43.0


From 813e7c94806b38840c2c234fff6ca3960df02a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 59/85] fix: do not take different constant types for one

---
 libs/compiler/syntax.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 9fc4413..2762536 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -128,11 +128,6 @@ static inline bool type_is_equal(const syntax *const sx, const size_t first, con
 	size_t length = 1;
 	const item_t type = vector_get(&sx->types, first);
 
-	if (type == TYPE_CONST)
-	{
-		return type_is_equal(sx, type_const_get_unqualified_type(sx, first), type_const_get_unqualified_type(sx, second));
-	}
-
 	// Определяем, сколько полей надо сравнивать для различных типов записей
 	if (type == TYPE_STRUCTURE || type == TYPE_FUNCTION)
 	{
-- 
2.43.0


From f0d0ae88f04a447443f13c8e37bd82d4ed370445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 60/85] fix: accept constant pointers outside of functions

---
 libs/compiler/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index b385c5c..3e7a688 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -2226,6 +2226,10 @@ static void parse_external_definition(parser *const prs, node *const root)
 		{
 			consume_token(prs);
 			type = type_pointer(prs->sx, group_type);
+			if (try_consume_token(prs, TK_CONST))
+			{
+				type = type_const(prs->sx, type);
+			}
 		}
 
 		if (token_is(&prs->tk, TK_IDENTIFIER))
-- 
2.43.0


From d24142846c22c304deca31d5b7804df302d8bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 61/85] fix: accept enumerations declared inside blocks

---
 libs/compiler/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 3e7a688..7a4a6e3 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1278,7 +1278,11 @@ static node parse_declaration(parser *const prs)
 	node declaration = build_empty_declaration(&prs->bld);
 	const location start_loc = token_get_location(&prs->tk);
 
+	const bool is_typedef = token_is(&prs->tk, TK_TYPEDEF);
+	prs->was_type_def = false;
+
 	const item_t type = parse_type_specifier(prs, &declaration);
+	const bool is_enum_declared = !is_typedef && prs->was_type_def && type_is_enum(prs->sx, type);
 	node_vector declarators = node_vector_create();
 
 	if (token_is_not(&prs->tk, TK_SEMICOLON))
@@ -1294,7 +1298,9 @@ static node parse_declaration(parser *const prs)
 	expect_and_consume(prs, TK_SEMICOLON, expected_semi_after_decl);
 
 	const location loc = { start_loc.begin, end_loc.end };
-	const node result = build_declaration(&prs->bld, &declaration, &declarators, loc);
+	const node result = node_vector_size(&declarators) == 0 && is_enum_declared
+		? statement_declaration_set_location(&declaration, loc)
+		: build_declaration(&prs->bld, &declaration, &declarators, loc);
 	node_vector_clear(&declarators);
 
 	return result;
-- 
2.43.0


From 83c167f903b5408c024961f80b4f04ac82df8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 62/85] fix: print diagnostics located on empty lines

---
 libs/utils/logger.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index ff765ae..01948db 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -307,13 +307,16 @@ static inline void log_auto(const logger func, location *const loc, const char *
 	}
 
 	char tag[MAX_MSG_SIZE];
-	char line[MAX_MSG_SIZE];
-	if (!loc_get_tag(loc, tag) || !loc_get_code_line(loc, line))
+	if (!loc_get_tag(loc, tag))
 	{
 		current_error_log(TAG_LOGGER, ERROR_LOGGER_NO_LOCATION);
 		return;
 	}
 
+	// A line may be empty, as the one at the end of file is
+	char line[MAX_MSG_SIZE] = "";
+	loc_get_code_line(loc, line);
+
 	char buffer[MAX_MSG_SIZE * 3];
 	splice(buffer, msg, line, loc_get_index(loc));
 
-- 
2.43.0


From 4dde96e33a949f2a18ddda1dcbf7f8e7605a9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 63/85] fix: locate diagnostics at the first character of a
 token

---
 libs/compiler/lexer.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 9428c53..c258678 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -20,6 +20,19 @@
 #include "uniscanner.h"
 
 
+/**
+ *	Get position of the current character, which is already scanned
+ *
+ *	@param	lxr			Lexer
+ *
+ *	@return	Position
+ */
+static inline size_t get_begin(const lexer *const lxr)
+{
+	const size_t position = in_get_position(lxr->sx->io);
+	return lxr->character == (char32_t)EOF ? position : position - utf8_size(lxr->character);
+}
+
 /**
  *	Emit an error from lexer
  *
@@ -28,8 +41,7 @@
  */
 static void lexer_error(lexer *const lxr, err_t num, ...)
 {
-	const size_t position = in_get_position(lxr->sx->io);
-	const location loc = { position, position + 1 };
+	const location loc = { get_begin(lxr), in_get_position(lxr->sx->io) };
 
 	va_list args;
 	va_start(args, num);
@@ -130,7 +142,7 @@ static inline void skip_block_comment(lexer *const lxr)
 static token lex_identifier_or_keyword(lexer *const lxr)
 {
 	assert(utf8_is_letter(lxr->character) || lxr->character == '#');
-	const size_t loc_begin = in_get_position(lxr->sx->io);
+	const size_t loc_begin = get_begin(lxr);
 
 	uni_unscan_char(lxr->sx->io, lxr->character);
 	const size_t repr = repr_reserve(lxr->sx, &lxr->character);
@@ -156,7 +168,7 @@ static token lex_identifier_or_keyword(lexer *const lxr)
 static token lex_numeric_literal(lexer *const lxr)
 {
 	assert(utf8_is_digit(lxr->character) || lxr->character == '.');
-	const size_t loc_begin = in_get_position(lxr->sx->io);
+	const size_t loc_begin = get_begin(lxr);
 
 	// Основание по умолчанию - 10
 	uint8_t base = 10;
@@ -382,7 +394,7 @@ static inline char32_t get_next_string_elem(lexer *const lxr)
 static token lex_char_literal(lexer *const lxr)
 {
 	assert(lxr->character == '\'');
-	const size_t loc_begin = in_get_position(lxr->sx->io);
+	const size_t loc_begin = get_begin(lxr);
 
 	if (scan(lxr) == '\'')
 	{
@@ -418,7 +430,7 @@ static token lex_char_literal(lexer *const lxr)
 static token lex_string_literal(lexer *const lxr)
 {
 	assert(lxr->character == '"');
-	const size_t loc_begin = in_get_position(lxr->sx->io);
+	const size_t loc_begin = get_begin(lxr);
 
 	while (lxr->character == '"')
 	{
@@ -485,7 +497,7 @@ token lex(lexer *const lxr)
 	while (true)
 	{
 		skip_whitespace(lxr);
-		const size_t loc_begin = in_get_position(lxr->sx->io);
+		const size_t loc_begin = get_begin(lxr);
 		token_t punctuator_kind;
 
 		switch (lxr->character)
-- 
2.43.0


From 201a3d3d75fd4add6da8e7d799d7fea2a81cfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 64/85] fix: accept type definitions inside blocks

---
 libs/compiler/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 7a4a6e3..196ab4d 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1282,7 +1282,7 @@ static node parse_declaration(parser *const prs)
 	prs->was_type_def = false;
 
 	const item_t type = parse_type_specifier(prs, &declaration);
-	const bool is_enum_declared = !is_typedef && prs->was_type_def && type_is_enum(prs->sx, type);
+	const bool is_type_declared = prs->was_type_def && (is_typedef || type_is_enum(prs->sx, type));
 	node_vector declarators = node_vector_create();
 
 	if (token_is_not(&prs->tk, TK_SEMICOLON))
@@ -1298,7 +1298,7 @@ static node parse_declaration(parser *const prs)
 	expect_and_consume(prs, TK_SEMICOLON, expected_semi_after_decl);
 
 	const location loc = { start_loc.begin, end_loc.end };
-	const node result = node_vector_size(&declarators) == 0 && is_enum_declared
+	const node result = node_vector_size(&declarators) == 0 && is_type_declared
 		? statement_declaration_set_location(&declaration, loc)
 		: build_declaration(&prs->bld, &declaration, &declarators, loc);
 	node_vector_clear(&declarators);
-- 
2.43.0


From 4faf1ecd4ef243ee4ae3375989ab76f913080342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 65/85] fix: locate misplaced labels, jumps and unknown types
 at their first token

---
 libs/compiler/parser.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 196ab4d..afb1dbe 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -840,14 +840,15 @@ static item_t parse_type_specifier(parser *const prs, const node *const parent)
 		{
 			const size_t name = token_get_ident_name(&prs->tk);
 			const item_t id = repr_get_reference(prs->sx, name);
-			consume_token(prs);
 
 			if (id == ITEM_MAX || !ident_is_type_specifier(prs->sx, (size_t)id))
 			{
 				parser_error(prs, ident_not_type);
+				consume_token(prs);
 				return TYPE_UNDEFINED;
 			}
 
+			consume_token(prs);
 			return ident_get_type(prs->sx, (size_t)id);
 		}
 
@@ -1365,7 +1366,6 @@ static bool is_declaration_specifier(parser *const prs)
 static node parse_case_statement(parser *const prs)
 {
 	assert(token_is(&prs->tk, TK_CASE));
-	const location case_loc = consume_token(prs);
 
 	if (!prs->is_in_switch)
 	{
@@ -1374,6 +1374,7 @@ static node parse_case_statement(parser *const prs)
 		return node_broken();
 	}
 
+	const location case_loc = consume_token(prs);
 	node expr = parse_constant_expression(prs);
 	if (!node_is_correct(&expr))
 	{
@@ -1400,7 +1401,6 @@ static node parse_case_statement(parser *const prs)
 static node parse_default_statement(parser *const prs)
 {
 	assert(token_is(&prs->tk, TK_DEFAULT));
-	const location default_loc = consume_token(prs);
 
 	if (!prs->is_in_switch)
 	{
@@ -1409,6 +1409,7 @@ static node parse_default_statement(parser *const prs)
 		return node_broken();
 	}
 
+	const location default_loc = consume_token(prs);
 	expect_and_consume(prs, TK_COLON, expected_colon_after_default);
 	node substmt = parse_statement(prs);
 
@@ -1724,7 +1725,6 @@ static node parse_for_statement(parser *const prs)
 static node parse_continue_statement(parser *const prs)
 {
 	assert(token_is(&prs->tk, TK_CONTINUE));
-	const location continue_loc = consume_token(prs);
 
 	if (!prs->is_in_loop)
 	{
@@ -1733,6 +1733,7 @@ static node parse_continue_statement(parser *const prs)
 		return node_broken();
 	}
 
+	const location continue_loc = consume_token(prs);
 	expect_and_consume(prs, TK_SEMICOLON, expected_semi_after_stmt);
 	return build_continue_statement(&prs->bld, continue_loc);
 }
@@ -1750,7 +1751,6 @@ static node parse_continue_statement(parser *const prs)
 static node parse_break_statement(parser *const prs)
 {
 	assert(token_is(&prs->tk, TK_BREAK));
-	const location break_loc = consume_token(prs);
 
 	if (!(prs->is_in_loop || prs->is_in_switch))
 	{
@@ -1759,6 +1759,7 @@ static node parse_break_statement(parser *const prs)
 		return node_broken();
 	}
 
+	const location break_loc = consume_token(prs);
 	expect_and_consume(prs, TK_SEMICOLON, expected_semi_after_stmt);
 	return build_break_statement(&prs->bld, break_loc);
 }
-- 
2.43.0


From f9551b22b54ce955d79fbe04fb2e56a1abe1004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 66/85] fix: functions whose names differ only before
 transliteration

---
 libs/compiler/llvmgen.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 4b9e597..71f016a 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -25,7 +25,6 @@
 #define MAX_FUNCTION_ARGS 128
 #define MAX_PRINTF_ARGS 128
 #define MAX_CASES 4096
-#define MAX_NAME 4096
 
 
 static const size_t HASH_TABLE_SIZE = 1024;
@@ -138,9 +137,22 @@ static void func_name_to_io(information *const info, const size_t func_ref)
 		return;
 	}
 
-	char modified_name[MAX_NAME];
-	utf8_transliteration(name, modified_name);
-	uni_printf(info->sx->io, "%s", modified_name);
+	bool is_ascii = true;
+	for (size_t i = 0; name[i] != '\0'; i += utf8_symbol_size(name[i]))
+	{
+		char symbol[8];
+		char modified_symbol[8];
+		is_ascii = utf8_to_string(symbol, utf8_convert(&name[i])) == 1 && is_ascii;
+		utf8_transliteration(symbol, modified_symbol);
+		uni_printf(info->sx->io, "%s", modified_symbol);
+	}
+
+	// Результаты транслитерации различных имён могут совпасть
+	if (!is_ascii)
+	{
+		const item_t repr = ident_get_repr(info->sx, func_ref);
+		uni_printf(info->sx->io, ".%" PRIitem, repr < 0 ? -repr : repr);
+	}
 }
 
 static void type_to_io(information *const info, const item_t type)
-- 
2.43.0


From 47e8ecf1b7ea7e830037aef945d2779c8b22f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 67/85] fix: the absolute value of a negative zero constant

---
 libs/compiler/builder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 664a886..f1cef61 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -15,6 +15,7 @@
  */
 
 #include "builder.h"
+#include <math.h>
 #include "AST.h"
 
 
@@ -132,7 +133,7 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 				case UN_MINUS:
 					return build_floating_literal_expression(bldr, -value, loc);
 				case UN_ABS:
-					return build_floating_literal_expression(bldr, value >= 0 ? value : -value, loc);
+					return build_floating_literal_expression(bldr, fabs(value), loc);
 				default:
 					return node_broken();
 			}
-- 
2.43.0


From 850f20e75fba1ffa37ac381bbeda98e12822ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 68/85] =?UTF-8?q?fix:=20the=20upper=20case=20of=20the=20le?=
 =?UTF-8?q?tter=20=D1=91?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/utils/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index 146ef3f..8d79dca 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -1066,6 +1066,11 @@ char32_t utf8_to_upper(const char32_t symbol)
 		return symbol + (U'А' - U'а');
 	}
 
+	if (symbol == U'ё')
+	{
+		return U'Ё';
+	}
+
 	return symbol;
 }
 
-- 
2.43.0


From 2f066e0edf4fba3d34ba8140345e9e475146ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 69/85] fix: global variables of type bool in LLVM output

---
 libs/compiler/llvmgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 71f016a..c19e572 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2327,6 +2327,10 @@ static void emit_variable_declaration(information *const info, const node *const
 				{
 					uni_printf(info->sx->io, " %" PRIitem ", align 4\n", info->answer_const);
 				}
+				else if (type_is_boolean(info->sx, type))
+				{
+					uni_printf(info->sx->io, " %s, align 4\n", info->answer_const_bool ? "true" : "false");
+				}
 				else
 				{
 					uni_printf(info->sx->io, " %.17e, align 4\n", info->answer_const_double);
-- 
2.43.0


From 89c5dfcf3516ed08ccf452acea522435d0e2e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 70/85] fix: bool constants returned and compared in LLVM
 output

---
 libs/compiler/llvmgen.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index c19e572..64168ed 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -308,10 +308,10 @@ static void operation_to_io(information *const info, const binary_t operation_ty
 			break;
 
 		case BIN_EQ:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp eq" : "fcmp oeq");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp oeq" : "icmp eq");
 			break;
 		case BIN_NE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp ne" : "fcmp one");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp one" : "icmp ne");
 			break;
 		case BIN_LT:
 			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp slt" : "fcmp olt");
@@ -1507,6 +1507,7 @@ static void emit_integral_expression(information *const info, const node *const
 	size_t left_reg = info->answer_reg;
 	const item_t left_const = info->answer_const;
 	const double left_const_double = info->answer_const_double;
+	const bool left_const_bool = info->answer_const_bool;
 
 	info->variable_location = LFREE;
 	const node RHS = expression_binary_get_RHS(nd);
@@ -1516,6 +1517,7 @@ static void emit_integral_expression(information *const info, const node *const
 	size_t right_reg = info->answer_reg;
 	const item_t right_const = info->answer_const;
 	const double right_const_double = info->answer_const_double;
+	const bool right_const_bool = info->answer_const_bool;
 
 	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
 		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && left_kind != ACONST)
@@ -1540,6 +1542,10 @@ static void emit_integral_expression(information *const info, const node *const
 	{
 		to_code_operation_reg_const_integer(info, operation, left_reg, right_const, operation_type);
 	}
+	else if (left_kind == AREG && right_kind == ACONST && type_is_boolean(info->sx, operation_type))
+	{
+		to_code_operation_reg_const_bool(info, operation, left_reg, right_const_bool, operation_type);
+	}
 	else if (left_kind == AREG && right_kind == ACONST) // double
 	{
 		to_code_operation_reg_const_double(info, operation, left_reg, right_const_double);
@@ -1548,6 +1554,11 @@ static void emit_integral_expression(information *const info, const node *const
 	{
 		to_code_operation_const_reg_integer(info, operation, left_const, right_reg, operation_type);
 	}
+	else if (left_kind == ACONST && right_kind == AREG && type_is_boolean(info->sx, operation_type))
+	{
+		// Операции над логическими значениями коммутативны
+		to_code_operation_reg_const_bool(info, operation, right_reg, left_const_bool, operation_type);
+	}
 	else if (left_kind == ACONST && right_kind == AREG) // double
 	{
 		to_code_operation_const_reg_double(info, operation, left_const_double, right_reg);
@@ -2822,6 +2833,10 @@ static void emit_return_statement(information *const info, const node *const nd)
 		{
 			uni_printf(info->sx->io, " ret i32 %" PRIitem "\n", info->answer_const);
 		}
+		else if (info->answer_kind == ACONST && type_is_boolean(info->sx, answer_type))
+		{
+			uni_printf(info->sx->io, " ret i1 %s\n", info->answer_const_bool ? "true" : "false");
+		}
 		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
 		{
 			uni_printf(info->sx->io, " ret double %.17e\n", info->answer_const_double);
-- 
2.43.0


From f108d1b1613242b7f3cfb0b76bd978a44b9c9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:04 +0000
Subject: [PATCH 71/85] fix: objects of const types in LLVM output

---
 libs/compiler/llvmgen.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 64168ed..e28deda 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -155,11 +155,20 @@ static void func_name_to_io(information *const info, const size_t func_ref)
 	}
 }
 
+static item_t get_unqualified_type(const information *const info, const item_t type)
+{
+	return type_get_class(info->sx, type) == TYPE_CONST ? type_const_get_unqualified_type(info->sx, type) : type;
+}
+
 static void type_to_io(information *const info, const item_t type)
 {
 	const type_t type_class = type_get_class(info->sx, type);
 	switch (type_class)
 	{
+		case TYPE_CONST:
+			type_to_io(info, type_const_get_unqualified_type(info->sx, type));
+			break;
+
 		case TYPE_VARARG:
 			uni_printf(info->sx->io, "...");
 			break;
@@ -749,6 +758,11 @@ static void emit_cast_expression(information *const info, const node *const nd)
 	const node expression_to_cast = expression_cast_get_operand(nd);
 	emit_expression(info, &expression_to_cast);
 
+	if (get_unqualified_type(info, source_type) == get_unqualified_type(info, target_type))
+	{
+		return;
+	}
+
 	uni_printf(info->sx->io, " %%.%zu = sitofp ", info->register_num);
 	type_to_io(info, source_type);
 	uni_printf(info->sx->io, " %%.%zu to ", info->answer_reg);
@@ -1499,7 +1513,7 @@ static void emit_integral_expression(information *const info, const node *const
 
 	info->variable_location = LFREE;
 	const node LHS = expression_binary_get_LHS(nd);
-	item_t operation_type = expression_get_type(&LHS);
+	item_t operation_type = get_unqualified_type(info, expression_get_type(&LHS));
 	emit_expression(info, &LHS);
 
 	// TODO: спрятать эти переменные в одну структуру и возвращать ее из emit_expr
@@ -1519,15 +1533,15 @@ static void emit_integral_expression(information *const info, const node *const
 	const double right_const_double = info->answer_const_double;
 	const bool right_const_bool = info->answer_const_bool;
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && left_kind != ACONST)
+	if (type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&LHS))) == TYPE_CHARACTER 
+		&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&RHS))) == TYPE_INTEGER && left_kind != ACONST)
 	{
 		to_code_char_to_int(info, left_reg);
 		left_reg = info->register_num - 1;
 		operation_type = TYPE_INTEGER;
 	}
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && right_kind != ACONST)
+	if (type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&LHS))) == TYPE_INTEGER 
+		&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&RHS))) == TYPE_CHARACTER && right_kind != ACONST)
 	{
 		to_code_char_to_int(info, right_reg);
 		right_reg = info->register_num - 1;
@@ -1627,16 +1641,16 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 	size_t result = info->answer_reg;
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && info->answer_kind != ACONST)
+	if (type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&LHS))) == TYPE_INTEGER 
+		&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&RHS))) == TYPE_CHARACTER && info->answer_kind != ACONST)
 	{
 		to_code_char_to_int(info, result);
 		result = info->register_num - 1;
 		operation_type = TYPE_INTEGER;
 	}
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && info->answer_kind != ACONST)
+	if (type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&LHS))) == TYPE_CHARACTER 
+		&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&RHS))) == TYPE_INTEGER && info->answer_kind != ACONST)
 	{
 		to_code_int_to_char(info, result);
 		result = info->register_num - 1;
@@ -2252,15 +2266,15 @@ static void emit_variable_declaration(information *const info, const node *const
 			const node initializer = declaration_variable_get_initializer(nd);
 			emit_expression(info, &initializer);
 
-			if (type_get_class(info->sx, type) == TYPE_INTEGER 
-				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_CHARACTER)
+			if (type_get_class(info->sx, get_unqualified_type(info, type)) == TYPE_INTEGER 
+				&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&initializer))) == TYPE_CHARACTER)
 			{
 				to_code_char_to_int(info, info->answer_reg);
 				info->answer_reg = info->register_num - 1;
 			}
 
-			if (type_get_class(info->sx, type) == TYPE_CHARACTER 
-				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_INTEGER)
+			if (type_get_class(info->sx, get_unqualified_type(info, type)) == TYPE_CHARACTER 
+				&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&initializer))) == TYPE_INTEGER)
 			{
 				to_code_int_to_char(info, info->answer_reg);
 				info->answer_reg = info->register_num - 1;
-- 
2.43.0


From eb3f69ace02b54b8308abe1fd1ce73cf3a28098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 72/85] fix: a char initialised with an integer constant in
 LLVM output

---
 libs/compiler/llvmgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index e28deda..1493442 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2267,14 +2267,14 @@ static void emit_variable_declaration(information *const info, const node *const
 			emit_expression(info, &initializer);
 
 			if (type_get_class(info->sx, get_unqualified_type(info, type)) == TYPE_INTEGER 
-				&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&initializer))) == TYPE_CHARACTER)
+				&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&initializer))) == TYPE_CHARACTER && info->answer_kind != ACONST)
 			{
 				to_code_char_to_int(info, info->answer_reg);
 				info->answer_reg = info->register_num - 1;
 			}
 
 			if (type_get_class(info->sx, get_unqualified_type(info, type)) == TYPE_CHARACTER 
-				&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&initializer))) == TYPE_INTEGER)
+				&& type_get_class(info->sx, get_unqualified_type(info, expression_get_type(&initializer))) == TYPE_INTEGER && info->answer_kind != ACONST)
 			{
 				to_code_int_to_char(info, info->answer_reg);
 				info->answer_reg = info->register_num - 1;
-- 
2.43.0


From 02012c652f7eb518d3a4064091fe463900a1bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:35 +0000
Subject: [PATCH 73/85] fix: the state of LLVM code generation starts
 initialised

---
 libs/compiler/llvmgen.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 1493442..e0ee762 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3285,6 +3285,17 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	info.variable_location = LREG;
 	info.request_reg = 0;
 	info.answer_reg = 0;
+	info.answer_const = 0;
+	info.answer_string = 0;
+	info.answer_const_double = 0.0;
+	info.answer_const_bool = false;
+	info.answer_kind = AREG;
+	info.label_true = 0;
+	info.label_false = 0;
+	info.label_break = 0;
+	info.label_continue = 0;
+	info.label_ternary_end = 0;
+	info.func_ref = 0;
 	info.was_stack_functions = false;
 	info.was_dynamic = false;
 	info.was_file = false;
-- 
2.43.0


From 57ecf76bf5d4fae5bc0504bfde99bdb1d97281c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:35 +0000
Subject: [PATCH 74/85] fix: the number of the unexpected node in the error

---
 libs/compiler/codegen.c      |  2 +-
 libs/compiler/instructions.c |  2 +-
 libs/compiler/mipsgen.c      | 20 ++++++++++----------
 libs/compiler/operations.c   |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index c3f768d..17bff28 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -615,7 +615,7 @@ static lvalue emit_lvalue(encoder *const enc, const node *const nd)
 
 		default:
 			// Cannot be lvalue
-			system_error(node_unexpected, nd);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			return (lvalue){ .displ = ITEM_MAX };
 	}
 }
diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index f52e03b..a5a712d 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -65,7 +65,7 @@ instruction_t builtin_to_instruction(const builtin_t func)
 		case BI_FCLOSE:					return IC_FCLOSE;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)func);
 			return IC_NOP;
 	}
 }
diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index 2ddb375..2f51dc9 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -1049,7 +1049,7 @@ static void rvalue_const_to_io(universal_io *const io, const rvalue *const rval)
 			break;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)rval->type);
 			break;
 	}
 }
@@ -1119,7 +1119,7 @@ static lvalue displacements_add(encoder *const enc, const size_t identifier, con
 	if ((!is_local) && (is_register))	// Запрет на глобальные регистровые переменные
 	{
 		// TODO: кидать соответствующую ошибку
-		system_error(node_unexpected);
+		system_error(node_unexpected, (int)OP_DECL_VAR);
 	}
 
 	const size_t index = hash_add(&enc->displacements, identifier, 3);
@@ -1560,7 +1560,7 @@ static lvalue emit_lvalue(encoder *const enc, const node *const nd)
 
 		default:
 			// Не может быть lvalue
-			system_error(node_unexpected, nd);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			return (lvalue) { .loc.displ = ITEM_MAX };
 	}
 }
@@ -1716,7 +1716,7 @@ static rvalue emit_operand_load(encoder *const enc, const rvalue *const operand,
 			return *operand;
 		default:
 			// Не может быть других операций
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)operation);
 			return RVALUE_VOID;
 	}
 }
@@ -2505,7 +2505,7 @@ static rvalue emit_unary_expression(encoder *const enc, const node *const nd)
 		}
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			return RVALUE_VOID;
 	}
 }
@@ -2730,7 +2730,7 @@ static rvalue emit_assignment_expression(encoder *const enc, const node *const n
 			break;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			return RVALUE_VOID;
 	}
 
@@ -2814,11 +2814,11 @@ static rvalue emit_expression(encoder *const enc, const node *const nd)
 		*/
 
 		case EXPR_INITIALIZER:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			return RVALUE_VOID;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			return RVALUE_VOID;
 	}
 }
@@ -3721,11 +3721,11 @@ static void emit_statement(encoder *const enc, const node *const nd)
 			break;
 
 		case STMT_CASE:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			break;
 
 		case STMT_DEFAULT:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)node_get_type(nd));
 			break;
 
 		case STMT_COMPOUND:
diff --git a/libs/compiler/operations.c b/libs/compiler/operations.c
index b7cd9ab..a5700bf 100644
--- a/libs/compiler/operations.c
+++ b/libs/compiler/operations.c
@@ -33,7 +33,7 @@ unary_t token_to_unary(const token_t token)
 		case TK_UPB:			return UN_UPB;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)token);
 			return 0;
 	}
 }
@@ -74,7 +74,7 @@ binary_t token_to_binary(const token_t token)
 		case TK_COMMA:					return BIN_COMMA;
 
 		default:
-			system_error(node_unexpected);
+			system_error(node_unexpected, (int)token);
 			return 0;
 	}
 }
-- 
2.43.0


From 9b2b9a1aa8cae862365a6c57955f32e625ae43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 75/85] fix: the spelling of a long type in the dump of the
 tree

---
 libs/compiler/writer.c | 58 ++++++++++++++++++++----------------------
 libs/compiler/writer.h |  4 +--
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/libs/compiler/writer.c b/libs/compiler/writer.c
index 7c1d886..5487329 100644
--- a/libs/compiler/writer.c
+++ b/libs/compiler/writer.c
@@ -94,9 +94,7 @@ static inline void write_location(writer *const wrt, const location loc)
  */
 static void write_type(writer *const wrt, const item_t type)
 {
-	char spelling[MAX_STRING_LENGTH];
-	write_type_spelling(wrt->sx, type, spelling);
-	write(wrt, spelling);
+	write_type_spelling(wrt->sx, type, wrt->io);
 }
 
 /**
@@ -2086,63 +2084,63 @@ void write_tree(const char *const path, syntax *const sx)
 }
 
 
-int write_type_spelling(const syntax *const sx, const item_t type, char *const buffer)
+int write_type_spelling(const syntax *const sx, const item_t type, universal_io *const io)
 {
 	const type_t type_class = type_get_class(sx, type);
 	switch (type_class)
 	{
 		case TYPE_VARARG:
-			return sprintf(buffer, "...");
+			return uni_printf(io, "...");
 
 		case TYPE_NULL_POINTER:
-			return sprintf(buffer, "nullptr");
+			return uni_printf(io, "nullptr");
 
 		case TYPE_FILE:
-			return sprintf(buffer, "FILE");
+			return uni_printf(io, "FILE");
 
 		case TYPE_VOID:
-			return sprintf(buffer, "void");
+			return uni_printf(io, "void");
 
 		case TYPE_BOOLEAN:
-			return sprintf(buffer, "bool");
+			return uni_printf(io, "bool");
 
 		case TYPE_FLOATING:
-			return sprintf(buffer, "double");
+			return uni_printf(io, "double");
 
 		case TYPE_CHARACTER:
-			return sprintf(buffer, "char");
+			return uni_printf(io, "char");
 
 		case TYPE_INTEGER:
-			return sprintf(buffer, "int");
+			return uni_printf(io, "int");
 
 		case TYPE_UNDEFINED:
-			return sprintf(buffer, "undefined type");
+			return uni_printf(io, "undefined type");
 
 		case TYPE_FUNCTION:
 		{
-			int index = write_type_spelling(sx, type_function_get_return_type(sx, type), buffer);
-			index += sprintf(&buffer[index], " (");
+			int index = write_type_spelling(sx, type_function_get_return_type(sx, type), io);
+			index += uni_printf(io, " (");
 
 			const size_t parameter_amount = type_function_get_parameter_amount(sx, type);
 			for (size_t i = 0; i < parameter_amount; i++)
 			{
 				const item_t parameter_type = type_function_get_parameter_type(sx, type, i);
 
-				index += write_type_spelling(sx, parameter_type, &buffer[index]);
+				index += write_type_spelling(sx, parameter_type, io);
 				if (i != parameter_amount - 1)
 				{
-					index += sprintf(&buffer[index], ", ");
+					index += uni_printf(io, ", ");
 				}
 			}
 
-			index += sprintf(&buffer[index], ")");
+			index += uni_printf(io, ")");
 			return index;
 		}
 
 		case TYPE_MSG_INFO:
 		case TYPE_STRUCTURE:
 		{
-			int index = sprintf(buffer, "struct { ");
+			int index = uni_printf(io, "struct { ");
 
 			const size_t member_amount = type_structure_get_member_amount(sx, type);
 			for (size_t i = 0; i < member_amount; i++)
@@ -2150,27 +2148,27 @@ int write_type_spelling(const syntax *const sx, const item_t type, char *const b
 				const item_t member_type = type_structure_get_member_type(sx, type, i);
 				const size_t member_repr = type_structure_get_member_name(sx, type, i);
 
-				index += write_type_spelling(sx, member_type, &buffer[index]);
-				index += sprintf(&buffer[index], " %s; ", repr_get_name(sx, member_repr));
+				index += write_type_spelling(sx, member_type, io);
+				index += uni_printf(io, " %s; ", repr_get_name(sx, member_repr));
 			}
 
-			index += sprintf(&buffer[index], "}");
+			index += uni_printf(io, "}");
 			return index;
 		}
 
 		case TYPE_ARRAY:
 		{
 			const item_t element_type = type_array_get_element_type(sx, type);
-			int index = write_type_spelling(sx, element_type, buffer);
-			index += sprintf(&buffer[index], "[]");
+			int index = write_type_spelling(sx, element_type, io);
+			index += uni_printf(io, "[]");
 			return index;
 		}
 
 		case TYPE_POINTER:
 		{
 			const item_t element_type = type_pointer_get_element_type(sx, type);
-			int index = write_type_spelling(sx, element_type, buffer);
-			index += sprintf(&buffer[index], "*");
+			int index = write_type_spelling(sx, element_type, io);
+			index += uni_printf(io, "*");
 			return index;
 		}
 
@@ -2179,14 +2177,14 @@ int write_type_spelling(const syntax *const sx, const item_t type, char *const b
 			const item_t element_type = type_const_get_unqualified_type(sx, type);
 			if (type_is_pointer(sx, element_type))
 			{
-				int index = write_type_spelling(sx, element_type, buffer);
-				index += sprintf(&buffer[index], " const");
+				int index = write_type_spelling(sx, element_type, io);
+				index += uni_printf(io, " const");
 				return index;
 			}
 			else
 			{
-				int index = sprintf(buffer, "const ");
-				index += write_type_spelling(sx, element_type, &buffer[index]);
+				int index = uni_printf(io, "const ");
+				index += write_type_spelling(sx, element_type, io);
 				return index; 
 			}
 		}
diff --git a/libs/compiler/writer.h b/libs/compiler/writer.h
index 3fa53db..eb8b27a 100644
--- a/libs/compiler/writer.h
+++ b/libs/compiler/writer.h
@@ -36,11 +36,11 @@ void write_tree(const char *const path, syntax *const sx);
  *
  *	@param	sx				Syntax structure
  *	@param	type			Type
- *	@param	buffer			Buffer
+ *	@param	io				Output
  *
  *	@return	Return printf-like value
  */
-int write_type_spelling(const syntax *const sx, const item_t type, char *const buffer);
+int write_type_spelling(const syntax *const sx, const item_t type, universal_io *const io);
 
 /**
  *	Write virtual machine codes
-- 
2.43.0


From 8a929ec19a89b7c735832241e3a9385243fa2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:33 +0000
Subject: [PATCH 76/85] fix: the name of the directive without an expression in
 a macro body

---
 libs/macro/parser.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index c4bbc5d..d4b9071 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1573,18 +1573,15 @@ static inline bool parse_token(parser *const prs, computer *const comp, const si
  *	Stop without line break processing.
  *
  *	@param	prs			Parser structure
+ *	@param	name		Directive name
  *
  *	@return	Computation resulte
  */
-static item_t parse_expression(parser *const prs)
+static item_t parse_expression(parser *const prs, const char *const name)
 {
 	location loc = parse_location(prs);
 	char directive[MAX_KEYWORD_SIZE];
-	const char *last_read = storage_last_read(prs->stg);
-	if (last_read)
-	{
-		sprintf(directive, "%s", last_read);
-	}
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", name);
 
 	char32_t character = skip_until(prs, false);
 	if (character == '\n' || character == (char32_t)EOF)
@@ -1742,7 +1739,7 @@ static inline char32_t parse_eval(parser *const prs)
 	loc_update_begin(prs->loc);
 
 	in_set_position(prs->io, position);
-	uni_printf(prs->io, "%" PRIitem "\n", parse_expression(prs));
+	uni_printf(prs->io, "%" PRIitem "\n", parse_expression(prs, storage_last_read(prs->stg)));
 	return skip_directive(prs);
 }
 
@@ -1909,7 +1906,7 @@ static inline bool parse_operator(parser *const prs, storage *const stg, const b
 		return false;
 	}
 
-	uni_printf(prs->io, "%s%" PRIitem, was_space ? " " : "", parse_expression(prs));
+	uni_printf(prs->io, "%s%" PRIitem, was_space ? " " : "", parse_expression(prs, "#eval"));
 	return true;
 }
 
@@ -2198,7 +2195,7 @@ static inline char32_t parse_while(parser *const prs)
 	sprintf(directive, "%s", storage_last_read(prs->stg));
 
 	const size_t begin = in_get_position(prs->io);
-	if (parse_expression(prs) == 0)
+	if (parse_expression(prs, directive) == 0)
 	{
 		skip_directive(prs);
 		universal_io out = io_create();
@@ -2238,7 +2235,7 @@ static inline char32_t parse_while(parser *const prs)
 		in_set_position(prs->io, begin);
 		*prs->loc = loc;
 
-		if (prs->was_error || parse_expression(prs) == 0)
+		if (prs->was_error || parse_expression(prs, directive) == 0)
 		{
 			*prs->loc = copy;
 			in_set_position(prs->io, end);
@@ -2261,7 +2258,7 @@ static keyword_t parse_elif(parser *const prs)
 	keyword_t keyword = KW_ELIF;
 	while (keyword != KW_ENDIF && keyword != NON_KEYWORD)
 	{
-		if (parse_expression(prs) != 0)
+		if (parse_expression(prs, storage_last_read(prs->stg)) != 0)
 		{
 			skip_directive(prs);
 			keyword = parse_block(prs, keyword);
-- 
2.43.0


From 147dcd8a7a04cbf1afb18536ecdf873957e84992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 77/85] fix: several conversions in one call of universal scanf

---
 libs/utils/uniio.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 6430bfa..6ac099c 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -64,11 +64,16 @@ static int scan_file_arg(universal_io *const io, const char *const format, const
 	strncpy(buffer, format, size);
 	sprintf(&buffer[size], "%%zn");
 
-	size_t number = 0;
-	int ret = fscanf(io->in_file, buffer, arg, &number);
-	io->in_position += number;
+	size_t number = SIZE_MAX;
+	const int ret = fscanf(io->in_file, buffer, arg, &number);
+	if (number == SIZE_MAX)
+	{
+		fseek(io->in_file, (long)io->in_position, SEEK_SET);
+		return EOF;
+	}
 
-	return number != 0 ? ret : 0;
+	io->in_position += number;
+	return ret;
 }
 
 static int scan_buffer_arg(universal_io *const io, const char *const format, const size_t size, void *arg)
@@ -77,11 +82,15 @@ static int scan_buffer_arg(universal_io *const io, const char *const format, con
 	strncpy(buffer, format, size);
 	sprintf(&buffer[size], "%%zn");
 
-	size_t number = 0;
-	int ret = sscanf(&io->in_buffer[io->in_position], buffer, arg, &number);
-	io->in_position += number;
+	size_t number = SIZE_MAX;
+	const int ret = sscanf(&io->in_buffer[io->in_position], buffer, arg, &number);
+	if (number == SIZE_MAX)
+	{
+		return EOF;
+	}
 
-	return io->in_position < io->in_size || number != 0 ? ret : 0;
+	io->in_position += number;
+	return ret;
 }
 
 static inline int in_func_position(universal_io *const io, const char *const format, va_list args
@@ -115,13 +124,14 @@ static inline int in_func_position(universal_io *const io, const char *const for
 			if (format[i] != '%')
 			{
 				void *arg = va_arg(args, void *);
-				ret += scan_arg(io, &format[last], i + 1, arg);
-
-				if (io->in_position >= io->in_size)
+				const int scanned = scan_arg(io, &format[last], i + 1 - last, arg);
+				if (scanned == EOF)
 				{
 					return ret;
 				}
 
+				ret += scanned;
+
 				if (was_count)
 				{
 					*(size_t *)arg = io->in_position - position;
-- 
2.43.0


From fa35ac34428d960ddc87504dd7fb7fd202119098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:58 +0000
Subject: [PATCH 78/85] fix: suppressed conversions and literal text in
 universal scanf

---
 libs/utils/uniio.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 6ac099c..4ac0a8e 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -58,6 +58,15 @@ static inline bool is_specifier(const char ch)
 		|| ch == 'n';					// Count
 }
 
+static inline bool is_sub_specifier(const char ch)
+{
+	return (ch >= '0' && ch <= '9')
+		|| ch == 'h' || ch == 'l'
+		|| ch == 'j' || ch == 'z'
+		|| ch == 't' || ch == 'L'
+		|| ch == '*';
+}
+
 static int scan_file_arg(universal_io *const io, const char *const format, const size_t size, void *arg)
 {
 	char buffer[MAX_FORMAT_SIZE];
@@ -65,7 +74,7 @@ static int scan_file_arg(universal_io *const io, const char *const format, const
 	sprintf(&buffer[size], "%%zn");
 
 	size_t number = SIZE_MAX;
-	const int ret = fscanf(io->in_file, buffer, arg, &number);
+	const int ret = arg != NULL ? fscanf(io->in_file, buffer, arg, &number) : fscanf(io->in_file, buffer, &number);
 	if (number == SIZE_MAX)
 	{
 		fseek(io->in_file, (long)io->in_position, SEEK_SET);
@@ -83,7 +92,8 @@ static int scan_buffer_arg(universal_io *const io, const char *const format, con
 	sprintf(&buffer[size], "%%zn");
 
 	size_t number = SIZE_MAX;
-	const int ret = sscanf(&io->in_buffer[io->in_position], buffer, arg, &number);
+	const int ret = arg != NULL ? sscanf(&io->in_buffer[io->in_position], buffer, arg, &number)
+		: sscanf(&io->in_buffer[io->in_position], buffer, &number);
 	if (number == SIZE_MAX)
 	{
 		return EOF;
@@ -106,11 +116,13 @@ static inline int in_func_position(universal_io *const io, const char *const for
 		if (format[i] == '%')
 		{
 			bool was_count = false;
+			bool was_suppressed = false;
 
 			while (is_specifier(format[i + 1]))
 			{
 				i++;
 				was_count = was_count || format[i] == 'n';
+				was_suppressed = was_suppressed || format[i] == '*';
 
 				if (format[i] == '[')
 				{
@@ -119,11 +131,16 @@ static inline int in_func_position(universal_io *const io, const char *const for
 						i++;
 					}
 				}
+
+				if (!is_sub_specifier(format[i]))
+				{
+					break;
+				}
 			}
 
 			if (format[i] != '%')
 			{
-				void *arg = va_arg(args, void *);
+				void *arg = was_suppressed ? NULL : va_arg(args, void *);
 				const int scanned = scan_arg(io, &format[last], i + 1 - last, arg);
 				if (scanned == EOF)
 				{
@@ -139,6 +156,10 @@ static inline int in_func_position(universal_io *const io, const char *const for
 
 				last = i + 1;
 			}
+			else if (format[i + 1] == '%')
+			{
+				i++;
+			}
 		}
 
 		i++;
-- 
2.43.0


From 68a32ae030a50a73e3e1d7839b14417f76324c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 79/85] fix: floating constants with two widths of numbers in
 the image

---
 libs/compiler/codegen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 17bff28..026ff3c 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -121,6 +121,11 @@ static inline void mem_add_double(encoder *const enc, const double value)
 {
 	item_t buffer[8];
 	const size_t size = item_store_double_for_target(enc->target, value, buffer);
+	if (size == SIZE_MAX)
+	{
+		// The target is incorrect, it is reported on export
+		return;
+	}
 
 	for (size_t i = 0; i < size; i++)
 	{
-- 
2.43.0


From 4777d8e880c7da1d8f7beba9a92540b2aa771d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:34 +0000
Subject: [PATCH 80/85] fix: large programs confused with type names: variables
 from displacement 1000, functions from number or type 1000, enumerators from
 value 1000

---
 libs/compiler/builder.c | 2 +-
 libs/compiler/parser.c  | 6 +++---
 libs/compiler/syntax.c  | 8 ++++----
 libs/compiler/syntax.h  | 4 +++-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f1cef61..fe6864f 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1225,7 +1225,7 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 
 	const size_t name = declaration_struct_get_name(declaration);
 	const item_t type = type_structure(bldr->sx, &types, &names);
-	const size_t id = ident_add(bldr->sx, name, 1000, type, 0);
+	const size_t id = ident_add(bldr->sx, name, KIND_TYPE, type, 0);
 
 	vector_clear(&types);
 	vector_clear(&names);
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index afb1dbe..3841179 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -254,7 +254,7 @@ static void skip_until(parser *const prs, const uint8_t tokens)
  *						@c  0 for variable,
  *						@c  1 for label,
  *						@c  funcnum for function,
- *						@c  >= @c 100 for type specifier
+ *						@c  KIND_TYPE for type specifier
  *	@param	mode		New identifier mode
  *
  *	@return	Index of the last item in identifiers table
@@ -879,7 +879,7 @@ static item_t parse_type_specifier(parser *const prs, const node *const parent)
 			{
 				const size_t repr = token_get_ident_name(&prs->tk);
 				consume_token(prs);
-				to_identab(prs, repr, 1000, type);
+				to_identab(prs, repr, KIND_TYPE, type);
 				prs->was_type_def = true;
 				if (token_is_not(&prs->tk, TK_SEMICOLON))
 				{
@@ -1160,7 +1160,7 @@ static item_t parse_enum_specifier(parser *const prs, const node *const parent)
 			if (token_is(&prs->tk, TK_L_BRACE))
 			{
 				const item_t type = parse_enum_declaration_list(prs, parent);
-				const size_t id = to_identab(prs, repr, 1000, type);
+				const size_t id = to_identab(prs, repr, KIND_TYPE, type);
 				prs->was_type_def = true;
 				return ident_get_type(prs->sx, (size_t)id);
 			}
diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 2762536..84ae354 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -424,12 +424,12 @@ size_t ident_add(syntax *const sx, const size_t repr, const item_t kind, const i
 		ident_set_type(sx, last_id, 0);
 		ident_set_displ(sx, last_id, 0);
 	}
-	else if (kind >= 1000)
+	else if (kind == KIND_TYPE)
 	{
-		// Это описание типа, а (type-1000) – это номер инициирующей процедуры
+		// Это описание типа
 		ident_set_displ(sx, last_id, kind);
 	}
-	else if (kind > 1 && type < 1000)
+	else if (kind > 1)
 	{
 		// Это функция, и в поле displ находится её номер
 		ident_set_displ(sx, last_id, kind);
@@ -497,7 +497,7 @@ int ident_set_displ(syntax *const sx, const size_t index, const item_t displ)
 
 bool ident_is_type_specifier(syntax *const sx, const size_t index)
 {
-	return ident_get_displ(sx, index) >= 1000;
+	return ident_get_displ(sx, index) == KIND_TYPE;
 }
 
 bool ident_is_local(const syntax *const sx, const size_t index)
diff --git a/libs/compiler/syntax.h b/libs/compiler/syntax.h
index 6a80122..e12a468 100644
--- a/libs/compiler/syntax.h
+++ b/libs/compiler/syntax.h
@@ -29,6 +29,8 @@
 
 #define MAX_STRING_LENGTH 128
 
+#define KIND_TYPE ITEM_MAX		/**< Kind and displacement of a type specifier: no variable, function or enumerator has it */
+
 
 #ifdef __cplusplus
 extern "C" {
@@ -216,7 +218,7 @@ size_t func_reserve(syntax *const sx);
  *						@c  0 for variable,
  *						@c  1 for label,
  *						@c  funcnum for function,
- *						@c  >= @c 100 for type specifier
+ *						@c  KIND_TYPE for type specifier
  *	@param	type		New identifier type
  *	@param	func_def	@c 0 for function without args,
  *						@c 1 for function definition,
-- 
2.43.0


From f858c0be2944083ca325f82d79040180a6c962c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:24 +0000
Subject: [PATCH 81/85] fix: operands taken for instructions when the value of
 an assignment is not used

---
 libs/compiler/codegen.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 026ff3c..86602a2 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -76,6 +76,9 @@ typedef struct encoder
 	size_t addr_default;			/**< Default operator address */
 	size_t addr_break;				/**< Break operator address */
 
+	size_t modify_beg;				/**< Address of the last assignment or increment instruction */
+	size_t modify_end;				/**< Address after the last assignment or increment instruction */
+
 	item_t displ;					/**< Current stack displacement */
 
 	item_t max_local_displ;			/**< Maximal local displacement */
@@ -327,6 +330,9 @@ static encoder enc_create(const workspace *const ws, syntax *const sx)
 	vector_increase(&enc.displacements, vector_size(&sx->identifiers));
 	vector_increase(&enc.functions, 2);
 
+	enc.modify_beg = 0;
+	enc.modify_end = 0;
+
 	enc.max_global_displ = 3;
 	enc.curr_func = NULL;
 
@@ -993,6 +999,7 @@ static void emit_increment_expression(encoder *const enc, const node *const nd)
 		instruction = instruction_to_address_ver(instruction);
 	}
 
+	enc->modify_beg = mem_size(enc);
 	if (type_is_floating(enc->sx, expression_get_type(nd)))
 	{
 		mem_add(enc, instruction_to_floating_ver(instruction));
@@ -1006,6 +1013,7 @@ static void emit_increment_expression(encoder *const enc, const node *const nd)
 	{
 		mem_add(enc, value.displ);
 	}
+	enc->modify_end = mem_size(enc);
 }
 
 /**
@@ -1202,12 +1210,14 @@ static void emit_assignment_expression(encoder *const enc, const node *const nd)
 			instruction = instruction_to_floating_ver(instruction);
 		}
 
+		enc->modify_beg = mem_size(enc);
 		mem_add(enc, instruction);
 
 		if (value.kind == VARIABLE)
 		{
 			mem_add(enc, value.displ);
 		}
+		enc->modify_end = mem_size(enc);
 	}
 }
 
@@ -1310,12 +1320,12 @@ static void emit_void_expression(encoder *const enc, const node *const nd)
 	{
 		emit_expression(enc, nd);
 
-		const size_t index = mem_get(enc, mem_size(enc) - 1) < MIN_INSTRUCTION_CODE
-			? mem_size(enc) - 2
-			: mem_size(enc) - 1;
-
-		const instruction_t operation = (instruction_t)mem_get(enc, index);
-		mem_set(enc, index, instruction_to_void_ver(operation));
+		// Operands may look like instructions, so only the last assignment or increment is changed
+		if (enc->modify_end == mem_size(enc))
+		{
+			const instruction_t operation = (instruction_t)mem_get(enc, enc->modify_beg);
+			mem_set(enc, enc->modify_beg, instruction_to_void_ver(operation));
+		}
 	}
 }
 
-- 
2.43.0


From 1a95d876a5f52cb23d5b4b978d76e56deace9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 82/85] fix: items of the types table taken for structures in
 IR

---
 libs/compiler/llvmgen.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index e0ee762..5ec22e2 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3109,9 +3109,16 @@ static void architecture(const workspace *const ws, syntax *const sx)
 
 static void structs_declaration(information *const info)
 {
-	const size_t types = vector_size(&info->sx->types);
-	for (size_t i = 0; i < types; i++)
+	// Only the beginnings of records are types, other items may have the same value
+	vector types = vector_create(vector_size(&info->sx->types));
+	for (size_t i = info->sx->start_type; i != 0; i = (size_t)vector_get(&info->sx->types, i))
 	{
+		vector_add(&types, (item_t)i + 1);
+	}
+
+	while (vector_size(&types) != 0)
+	{
+		const size_t i = (size_t)vector_remove(&types);
 		if (type_is_structure(info->sx, (item_t)i))
 		{
 			uni_printf(info->sx->io, "%%struct_opt.%zu = type { ", i);
@@ -3137,6 +3144,7 @@ static void structs_declaration(information *const info)
 			uni_printf(info->sx->io, " }\n");
 		}
 	}
+	vector_clear(&types);
 	uni_printf(info->sx->io, " \n");
 }
 
-- 
2.43.0


From 475d5f93561613d444c61fa7163b358ffc9670d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 83/85] fix: IR of calls with more than 128 arguments and
 switches with more than 4096 cases

---
 libs/compiler/llvmgen.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 5ec22e2..b603a55 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -15,6 +15,7 @@
  */
 
 #include "llvmgen.h"
+#include <stdlib.h>
 #include <string.h>
 #include "AST.h"
 #include "errors.h"
@@ -22,9 +23,7 @@
 #include "uniprinter.h"
 
 
-#define MAX_FUNCTION_ARGS 128
 #define MAX_PRINTF_ARGS 128
-#define MAX_CASES 4096
 
 
 static const size_t HASH_TABLE_SIZE = 1024;
@@ -1015,21 +1014,16 @@ static void emit_subscript_expression(information *const info, const node *const
  */
 static void emit_call_expression(information *const info, const node *const nd)
 {
-	item_t arguments[MAX_FUNCTION_ARGS];
-	double arguments_double[MAX_FUNCTION_ARGS];
-	bool arguments_bool[MAX_FUNCTION_ARGS];
-	answer_t arguments_type[MAX_FUNCTION_ARGS];
-	item_t arguments_value_type[MAX_FUNCTION_ARGS];
-
 	const item_t func_type = expression_get_type(nd);
 
 	const node callee = expression_call_get_callee(nd);
 	const size_t args = expression_call_get_arguments_amount(nd);
-	if (args > MAX_FUNCTION_ARGS)
-	{
-		system_error(too_many_arguments);
-		return;
-	}
+
+	item_t *const arguments = malloc((args + 1) * sizeof(item_t));
+	double *const arguments_double = malloc((args + 1) * sizeof(double));
+	bool *const arguments_bool = malloc((args + 1) * sizeof(bool));
+	answer_t *const arguments_type = malloc((args + 1) * sizeof(answer_t));
+	item_t *const arguments_value_type = malloc((args + 1) * sizeof(item_t));
 
 	// FIXME: а если это не функция, а указатель на функцию?
 	const size_t func_ref = expression_identifier_get_id(&callee);
@@ -1193,6 +1187,12 @@ static void emit_call_expression(information *const info, const node *const nd)
 		uni_printf(info->sx->io, " %%.%zu = fptosi double %%.%zu to i32\n", info->register_num, info->answer_reg);
 		info->answer_reg = info->register_num++;
 	}
+
+	free(arguments);
+	free(arguments_double);
+	free(arguments_bool);
+	free(arguments_type);
+	free(arguments_value_type);
 }
 
 /**
@@ -2908,7 +2908,7 @@ static void emit_case_statement(information *const info, const node *const nd)
  */
 static void emit_switch_statement(information *const info, const node *const nd)
 {
-	item_t case_values[MAX_CASES];
+	vector case_values = vector_create(0);
 
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
@@ -2928,7 +2928,7 @@ static void emit_switch_statement(information *const info, const node *const nd)
 				const node expr = statement_case_get_expression(&substmt);
 				emit_expression(info, &expr);
 
-				case_values[case_num] = info->answer_const;
+				vector_add(&case_values, info->answer_const);
 				case_num++;
 			}
 			else if (statement_get_class(&substmt) == STMT_DEFAULT)
@@ -2945,9 +2945,10 @@ static void emit_switch_statement(information *const info, const node *const nd)
 	{
 		uni_printf(info->sx->io, "  ");
 		type_to_io(info, expression_get_type(&condition));
-		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", case_values[i], info->label_switch - i);
+		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", vector_get(&case_values, i), info->label_switch - i);
 	}
 	uni_printf(info->sx->io, " ]\n");
+	vector_clear(&case_values);
 
 	info->label_break = info->label_switch - case_num - has_default;
 	if (statement_get_class(&body) == STMT_COMPOUND)
-- 
2.43.0


From 364219bca4d14ac608939d1d84d7b7f15ba4f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:39 +0000
Subject: [PATCH 84/85] fix: structure given as an initializer in an argument
 was passed as an address

---
 libs/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 86602a2..fbc762f 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -735,7 +735,7 @@ static void emit_argument(encoder *const enc, const node *const nd)
 		mem_add(enc, displ >= 0 ? IC_LI : IC_LOAD);
 		mem_add(enc, abs(displ));
 	}
-	else if (expression_get_class(nd) == EXPR_INITIALIZER)
+	else if (expression_get_class(nd) == EXPR_INITIALIZER && type_is_array(enc->sx, arg_type))
 	{
 		mem_add(enc, IC_LI);
 		const size_t reserved = mem_size(enc) + 4;
-- 
2.43.0


From 06b58a75d9f472bde1f1492e9320caedd53c6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 85/85] fix: characters given as integers and integers given as
 characters made IR invalid

---
 libs/compiler/llvmgen.c | 54 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index b603a55..15bb4a1 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -89,6 +89,7 @@ typedef struct information
 	bool was_function[BEGIN_USER_FUNC];		/**< Массив флагов библиотечных функций из builtin_t */
 	bool is_main;							/**< Истина, если обрабатывается main */
 	bool is_call;							/**< Истина, если обрабатывается вызов функции */
+	item_t return_type;						/**< Тип значения обрабатываемой функции */
 
 	size_t func_ref;						/**< id функции */
 } information;
@@ -651,6 +652,45 @@ static void to_code_char_to_int(information *const info, const size_t reg)
 	info->register_num++;
 }
 
+/**
+ *	Convert answer between character and integer types if it differs from expected type
+ *
+ *	@param	info		Encoder
+ *	@param	expected	Expected type
+ *	@param	actual		Type of answer
+ *
+ *	@return	Type of answer after conversion
+ */
+static item_t to_code_character_conversion(information *const info, const item_t expected, const item_t actual)
+{
+	const type_t expected_class = type_get_class(info->sx, get_unqualified_type(info, expected));
+	const type_t actual_class = type_get_class(info->sx, get_unqualified_type(info, actual));
+
+	if (actual_class == TYPE_CHARACTER && expected_class != TYPE_CHARACTER)
+	{
+		if (info->answer_kind == AREG)
+		{
+			to_code_char_to_int(info, info->answer_reg);
+			info->answer_reg = info->register_num - 1;
+		}
+
+		return TYPE_INTEGER;
+	}
+
+	if (actual_class == TYPE_INTEGER && expected_class == TYPE_CHARACTER)
+	{
+		if (info->answer_kind == AREG)
+		{
+			to_code_int_to_char(info, info->answer_reg);
+			info->answer_reg = info->register_num - 1;
+		}
+
+		return TYPE_CHARACTER;
+	}
+
+	return actual;
+}
+
 
 static void check_type_and_branch(information *const info, const item_t type)
 {
@@ -1017,6 +1057,8 @@ static void emit_call_expression(information *const info, const node *const nd)
 	const item_t func_type = expression_get_type(nd);
 
 	const node callee = expression_call_get_callee(nd);
+	const item_t callee_type = expression_get_type(&callee);
+	const size_t parameters = type_function_get_parameter_amount(info->sx, callee_type);
 	const size_t args = expression_call_get_arguments_amount(nd);
 
 	item_t *const arguments = malloc((args + 1) * sizeof(item_t));
@@ -1048,6 +1090,9 @@ static void emit_call_expression(information *const info, const node *const nd)
 		{
 			emit_expression(info, &argument);
 		}
+		arguments_value_type[i] = to_code_character_conversion(info
+			, i < parameters ? type_function_get_parameter_type(info->sx, callee_type, i) : TYPE_VARARG
+			, arguments_value_type[i]);
 		// TODO: сделать параметры других типов (логическое)
 		arguments_type[i] = info->answer_kind;
 
@@ -1872,6 +1917,7 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const node LHS = expression_ternary_get_LHS(nd);
 	const bool then_is_ternary = expression_get_class(&LHS) == EXPR_TERNARY;
 	emit_expression(info, &LHS);
+	to_code_character_conversion(info, expression_get_type(nd), expression_get_type(&LHS));
 
 	const answer_t then_answer = info->answer_kind;
 	const item_t then_reg = info->answer_reg;
@@ -1889,6 +1935,7 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const node RHS = expression_ternary_get_RHS(nd);
 	const bool else_is_ternary = expression_get_class(&RHS) == EXPR_TERNARY;
 	emit_expression(info, &RHS);
+	to_code_character_conversion(info, expression_get_type(nd), expression_get_type(&RHS));
 
 	const answer_t else_answer = info->answer_kind;
 	const item_t else_reg = info->answer_reg;
@@ -2465,6 +2512,7 @@ static void emit_function_definition(information *const info, const node *const
 	const item_t ret_type = ref_ident != info->sx->ref_main ? type_function_get_return_type(info->sx, func_type) : TYPE_INTEGER;
 	const size_t parameters = type_function_get_parameter_amount(info->sx, func_type);
 	info->was_dynamic = false;
+	info->return_type = ret_type;
 
 	uni_printf(info->sx->io, "define ");
 	type_to_io(info, ret_type);
@@ -2842,10 +2890,12 @@ static void emit_return_statement(information *const info, const node *const nd)
 		emit_expression(info, &expression);
 
 		// TODO: добавить обработку других ответов (ALOGIC)
-		const item_t answer_type = expression_get_type(&expression);
+		const item_t answer_type = to_code_character_conversion(info, info->return_type, expression_get_type(&expression));
 		if (info->answer_kind == ACONST && type_is_integer(info->sx, answer_type))
 		{
-			uni_printf(info->sx->io, " ret i32 %" PRIitem "\n", info->answer_const);
+			uni_printf(info->sx->io, " ret ");
+			type_to_io(info, info->return_type);
+			uni_printf(info->sx->io, " %" PRIitem "\n", info->answer_const);
 		}
 		else if (info->answer_kind == ACONST && type_is_boolean(info->sx, answer_type))
 		{
-- 
2.43.0

