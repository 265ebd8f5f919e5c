From 0a9773645f28842119852eef4bfb306f9d8903c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 01/95] fix: refuse wide vector accesses whose index wraps
 around

index + DOUBLE_SIZE overflows for SIZE_MAX, so reading the top of an empty
stack of doubles accessed memory before the array.
---
 libs/utils/vector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/utils/vector.c b/libs/utils/vector.c
index 2633b7f..ed6d97d 100644
--- a/libs/utils/vector.c
+++ b/libs/utils/vector.c
@@ -112,7 +112,7 @@ int vector_set(vector *const vec, const size_t index, const item_t value)
 
 size_t vector_set_double(vector *const vec, const size_t index, const double value)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -122,7 +122,7 @@ size_t vector_set_double(vector *const vec, const size_t index, const double val
 
 size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -143,7 +143,7 @@ item_t vector_get(const vector *const vec, const size_t index)
 
 double vector_get_double(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < DOUBLE_SIZE)
 	{
 		return DBL_MAX;
 	}
@@ -153,7 +153,7 @@ double vector_get_double(const vector *const vec, const size_t index)
 
 int64_t vector_get_int64(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < INT64_SIZE)
 	{
 		return LLONG_MAX;
 	}
-- 
2.43.0


From cad3b3fc8ba7eaed2e12b7a7a1d1dbb4d680f04c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 02/95] fix: do not shift by the full width when storing 64-bit
 cells

---
 libs/utils/item.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/item.c b/libs/utils/item.c
index 6e46422..4a72aa9 100644
--- a/libs/utils/item.c
+++ b/libs/utils/item.c
@@ -287,7 +287,7 @@ size_t item_store_int64_for_target(const item_status status, const int64_t value
 			stg[i] |= ~mask;
 		}
 
-		temp <<= shift;
+		temp = shift < 64 ? temp << shift : 0;
 	}
 
 	return size;
-- 
2.43.0


From 35f57eafcd4478148fa089373f3294a0338fbe83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 03/95] fix: report refused wide writes to a record and huge
 field numbers

hash_set_double and hash_set_int64 compared the SIZE_MAX error code with
other constants and so returned success for a refused write.
---
 libs/utils/hash.c | 4 ++--
 libs/utils/hash.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/utils/hash.c b/libs/utils/hash.c
index 769a008..3f33b6f 100644
--- a/libs/utils/hash.c
+++ b/libs/utils/hash.c
@@ -168,13 +168,13 @@ size_t hash_set(hash *const hs, const item_t key, const size_t num, const item_t
 size_t hash_set_double(hash *const hs, const item_t key, const size_t num, const double value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != DBL_MAX ? index : SIZE_MAX;
+	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 size_t hash_set_int64(hash *const hs, const item_t key, const size_t num, const int64_t value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != LLONG_MAX ? index : SIZE_MAX;
+	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 
diff --git a/libs/utils/hash.h b/libs/utils/hash.h
index 625ddbf..442d978 100644
--- a/libs/utils/hash.h
+++ b/libs/utils/hash.h
@@ -198,7 +198,7 @@ inline item_t hash_get_by_index(const hash *const hs, const size_t index, const
  */
 inline double hash_get_double_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
+	return num <= SIZE_MAX - DOUBLE_SIZE && num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
 }
 
 /**
@@ -212,7 +212,7 @@ inline double hash_get_double_by_index(const hash *const hs, const size_t index,
  */
 inline int64_t hash_get_int64_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
+	return num <= SIZE_MAX - INT64_SIZE && num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
 }
 
 
@@ -243,7 +243,7 @@ inline int hash_set_by_index(hash *const hs, const size_t index, const size_t nu
  */
 inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const size_t num, const double value)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
+	return num <= SIZE_MAX - DOUBLE_SIZE && num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 /**
@@ -258,7 +258,7 @@ inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const
  */
 inline size_t hash_set_int64_by_index(hash *const hs, const size_t index, const size_t num, const int64_t value)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
+	return num <= SIZE_MAX - INT64_SIZE && num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 
-- 
2.43.0


From 2c3987a58bdbecef07d01240da93631dea9fd1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 04/95] fix: encode characters with the number of bytes UTF-8
 requires

U+0800..U+0FFF and U+10000..U+3FFFF were written with one byte too few.
---
 libs/utils/utf8.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index b425738..9c09bc7 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -987,13 +987,8 @@ size_t utf8_to_string(char *const buffer, const char32_t symbol)
 		return 1;
 	}
 
-	char32_t mask = 0x00FC0000;
-	size_t octets = 4;
-	while ((symbol & mask) == 0 && octets > 1)
-	{
-		mask >>= 6;
-		octets--;
-	}
+	const size_t octets = utf8_size(symbol);
+	char32_t mask = 0x00FC0000 >> (6 * (4 - octets));
 
 	for (size_t i = 0; i < octets; i++)
 	{
-- 
2.43.0


From 9e89f706b1623739715620fdb0d0c580ec285c8b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 05/95] fix: stop at the start of the text when looking for a
 first byte

---
 libs/utils/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index 9c09bc7..6e912c0 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -934,7 +934,7 @@ size_t utf8_to_first_byte(const char *const str, const size_t index)
 		return 0;
 	}
 
-	return (str[index] & 0xC0 /* 0b11000000 */) == 0x80 /* 0b10000000 */
+	return index != 0 && (str[index] & 0xC0 /* 0b11000000 */) == 0x80 /* 0b10000000 */
 		? utf8_to_first_byte(str, index - 1)
 		: index;
 }
-- 
2.43.0


From 61daf0f7c65e6d9eaf1bce068d0b78c24ac310bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 06/95] fix: a root without children has no next node

---
 libs/utils/tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index ec61993..f8a6ade 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -205,6 +205,11 @@ node node_get_next(const node *const nd)
 
 	if (node_get_amount(nd) == 0)
 	{
+		if (nd->index == 0)
+		{
+			return node_broken();
+		}
+
 		item_t index = vector_get(nd->tree, ref_get_next(nd));
 		while (is_negative(index))
 		{
-- 
2.43.0


From 8bf05f705e9459a5f045982e0f4610c3bed05ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:44:08 +0000
Subject: [PATCH 07/95] fix: refuse wide node arguments whose index wraps
 around

---
 libs/utils/tree.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index f8a6ade..3129564 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -180,12 +180,12 @@ item_t node_get_arg(const node *const nd, const size_t index)
 
 double node_get_arg_double(const node *const nd, const size_t index)
 {
-	return index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
+	return index < node_get_argc(nd) && node_get_argc(nd) - index >= DOUBLE_SIZE ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
 }
 
 int64_t node_get_arg_int64(const node *const nd, const size_t index)
 {
-	return index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
+	return index < node_get_argc(nd) && node_get_argc(nd) - index >= INT64_SIZE ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
 }
 
 size_t node_get_amount(const node *const nd)
@@ -345,7 +345,7 @@ int node_set_arg(const node *const nd, const size_t index, const item_t arg)
 
 size_t node_set_arg_double(const node *const nd, const size_t index, const double arg)
 {
-	if (index + DOUBLE_SIZE > node_get_argc(nd))
+	if (index >= node_get_argc(nd) || node_get_argc(nd) - index < DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -355,7 +355,7 @@ size_t node_set_arg_double(const node *const nd, const size_t index, const doubl
 
 size_t node_set_arg_int64(const node *const nd, const size_t index, const int64_t arg)
 {
-	if (index + INT64_SIZE > node_get_argc(nd))
+	if (index >= node_get_argc(nd) || node_get_argc(nd) - index < INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
-- 
2.43.0


From 2ae32bf10415115827e16be9abc62afcf8c0d067 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:07:21 +0000
Subject: [PATCH 08/95] fix: normalise paths that reduce to nothing and refuse
 too long ones

An empty path or ./ read and possibly wrote before the start of a local
buffer, and a path longer than the buffer overflowed it.
---
 libs/utils/workspace.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 452f63d..b88bf33 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -91,7 +91,12 @@ static void ws_unix_path(const char *const path, char *const buffer)
 		i++;
 	}
 
-	buffer[buffer[j - 1] == '/' ? j - 1 : j] = '\0';
+	if (j == 0)
+	{
+		buffer[j++] = '.';
+	}
+
+	buffer[j > 1 && buffer[j - 1] == '/' ? j - 1 : j] = '\0';
 }
 
 static size_t ws_exists(const char *const element, const strings *const vec)
@@ -120,7 +125,7 @@ static inline size_t ws_add_string(strings *const vec, const char *const str)
 
 static inline size_t ws_add_path(workspace *const ws, strings *const vec, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || path[0] == '\0' || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return SIZE_MAX;
@@ -261,7 +266,7 @@ int ws_add_flags(workspace *const ws, const char *const *const flags, const size
 
 int ws_set_output(workspace *const ws, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return -1;
-- 
2.43.0


From d7680f94bf2be3bc2eef15f06929007364f68d0a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 09/95] fix: switch in virtual machine code falls through,
 finds default anywhere and removes its selector

---
 libs/compiler/codegen.c | 61 +++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index e27ba7d..50d8488 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -73,8 +73,11 @@ typedef struct encoder
 
 	size_t addr_cond;				/**< Condition address */
 	size_t addr_case;				/**< Case operator address */
+	size_t addr_default;			/**< Default operator address */
 	size_t addr_break;				/**< Break operator address */
 
+	size_t selectors;				/**< Number of switch selectors on stack inside current loop */
+
 	item_t displ;					/**< Current stack displacement */
 
 	item_t max_local_displ;			/**< Maximal local displacement */
@@ -1657,6 +1660,17 @@ static void emit_declaration_statement(encoder *const enc, const node *const nd)
 	}
 }
 
+/**
+ *	Emit removal of the value from the top of stack
+ *
+ *	@param	enc			Encoder
+ */
+static void emit_pop(encoder *const enc)
+{
+	mem_add(enc, IC_BE0);
+	mem_add(enc, (item_t)mem_size(enc) + 1);
+}
+
 /**
  *	Emit case statement
  *
@@ -1665,11 +1679,11 @@ static void emit_declaration_statement(encoder *const enc, const node *const nd)
  */
 static void emit_case_statement(encoder *const enc, const node *const nd)
 {
-	if (enc->addr_case != 0)
-	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
-	}
+	// Control that falls through from the previous label skips the comparison
+	mem_add(enc, IC_B);
+	const size_t addr_substmt = mem_reserve(enc);
 
+	mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
 	mem_add(enc, IC_DUPLICATE);
 
 	const node expr = statement_case_get_expression(nd);
@@ -1678,6 +1692,7 @@ static void emit_case_statement(encoder *const enc, const node *const nd)
 	mem_add(enc, IC_EQ);
 	mem_add(enc, IC_BE0);
 	enc->addr_case = mem_reserve(enc);
+	mem_set(enc, addr_substmt, (item_t)mem_size(enc));
 
 	const node substmt = statement_case_get_substmt(nd);
 	emit_statement(enc, &substmt);
@@ -1691,11 +1706,7 @@ static void emit_case_statement(encoder *const enc, const node *const nd)
  */
 static void emit_default_statement(encoder *const enc, const node *const nd)
 {
-	if (enc->addr_case != 0)
-	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
-	}
-	enc->addr_case = 0;
+	enc->addr_default = mem_size(enc);
 
 	const node substmt = statement_default_get_substmt(nd);
 	emit_statement(enc, &substmt);
@@ -1761,22 +1772,27 @@ static void emit_switch_statement(encoder *const enc, const node *const nd)
 {
 	const size_t old_addr_break = enc->addr_break;
 	const size_t old_addr_case = enc->addr_case;
+	const size_t old_addr_default = enc->addr_default;
 	enc->addr_break = 0;
-	enc->addr_case = 0;
+	enc->addr_default = 0;
 
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(enc, &condition);
 
+	mem_add(enc, IC_B);
+	enc->addr_case = mem_reserve(enc);
+
+	enc->selectors++;
 	const node body = statement_switch_get_body(nd);
 	emit_statement(enc, &body);
+	enc->selectors--;
 
-	if (enc->addr_case > 0)
-	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
-	}
+	mem_set(enc, enc->addr_case, (item_t)(enc->addr_default != 0 ? enc->addr_default : mem_size(enc)));
 
 	addr_end_break(enc);
+	emit_pop(enc);
 
+	enc->addr_default = old_addr_default;
 	enc->addr_case = old_addr_case;
 	enc->addr_break = old_addr_break;
 }
@@ -1789,6 +1805,9 @@ static void emit_switch_statement(encoder *const enc, const node *const nd)
  */
 static void emit_while_statement(encoder *const enc, const node *const nd)
 {
+	const size_t old_selectors = enc->selectors;
+	enc->selectors = 0;
+
 	const size_t old_addr_break = enc->addr_break;
 	const size_t old_addr_cond = enc->addr_cond;
 	const size_t addr = mem_size(enc);
@@ -1811,6 +1830,7 @@ static void emit_while_statement(encoder *const enc, const node *const nd)
 
 	enc->addr_break = old_addr_break;
 	enc->addr_cond = old_addr_cond;
+	enc->selectors = old_selectors;
 }
 
 /**
@@ -1821,6 +1841,9 @@ static void emit_while_statement(encoder *const enc, const node *const nd)
  */
 static void emit_do_statement(encoder *const enc, const node *const nd)
 {
+	const size_t old_selectors = enc->selectors;
+	enc->selectors = 0;
+
 	const size_t old_addr_break = enc->addr_break;
 	const size_t old_addr_cond = enc->addr_cond;
 	const item_t addr = (item_t)mem_size(enc);
@@ -1841,6 +1864,7 @@ static void emit_do_statement(encoder *const enc, const node *const nd)
 
 	enc->addr_break = old_addr_break;
 	enc->addr_cond = old_addr_cond;
+	enc->selectors = old_selectors;
 }
 
 /**
@@ -1851,6 +1875,9 @@ static void emit_do_statement(encoder *const enc, const node *const nd)
  */
 static void emit_for_statement(encoder *const enc, const node *const nd)
 {
+	const size_t old_selectors = enc->selectors;
+	enc->selectors = 0;
+
 	const item_t scope_displacement = enc->displ;
 	if (statement_for_has_inition(nd))
 	{
@@ -1890,6 +1917,7 @@ static void emit_for_statement(encoder *const enc, const node *const nd)
 
 	enc->addr_break = old_addr_break;
 	enc->addr_cond = old_addr_cond;
+	enc->selectors = old_selectors;
 	enc->displ = scope_displacement;
 }
 
@@ -1900,6 +1928,11 @@ static void emit_for_statement(encoder *const enc, const node *const nd)
  */
 static void emit_continue_statement(encoder *const enc)
 {
+	for (size_t i = 0; i < enc->selectors; i++)
+	{
+		emit_pop(enc);
+	}
+
 	mem_add(enc, IC_B);
 	mem_add(enc, (item_t)enc->addr_cond);
 	enc->addr_cond = mem_size(enc) - 1;
-- 
2.43.0


From d211c54b99bbcd36573adff231ae05559fa5069a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 10/95] fix: logical or yields a logical value when its left
 operand decides

---
 libs/compiler/codegen.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 50d8488..8e4336b 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -1102,6 +1102,14 @@ static void emit_binary_expression(encoder *const enc, const node *const nd)
 		const bool is_logical = operator == BIN_LOG_AND || operator == BIN_LOG_OR;
 		if (is_logical)
 		{
+			if (operator == BIN_LOG_OR && !type_is_boolean(enc->sx, expression_get_type(&LHS)))
+			{
+				// The left operand may become the result
+				mem_add(enc, IC_LI);
+				mem_add(enc, 0);
+				mem_add(enc, IC_NE);
+			}
+
 			mem_add(enc, IC_DUPLICATE);
 			mem_add(enc, operator == BIN_LOG_AND ? IC_BE0 : IC_BNE0);
 			addr = mem_reserve(enc);
-- 
2.43.0


From f807c025a4a233a7391593211a676e146c499609 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 11/95] fix: integer compound assignments used as statements
 leave nothing on stack

---
 libs/compiler/instructions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index 764cdaf..f52e03b 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -166,7 +166,7 @@ instruction_t instruction_to_floating_ver(const instruction_t instruction)
 
 instruction_t instruction_to_void_ver(const instruction_t instruction)
 {
-	return (instruction >= IC_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
+	return (instruction >= IC_REM_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
 		|| (instruction >= IC_POST_INC && instruction <= IC_PRE_DEC_AT)
 		|| (instruction >= IC_ASSIGN_R && instruction <= IC_DIV_ASSIGN_AT_R)
 		|| (instruction >= IC_POST_INC_R && instruction <= IC_PRE_DEC_AT_R)
-- 
2.43.0


From f07c48052a240f720986b3c45995fa81efa3cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 12/95] fix: do not evaluate division by zero at compile time

---
 libs/compiler/builder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56c5d7..8449089 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -151,6 +151,11 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 		{
 			const item_t left_value = expression_literal_get_integer(LHS);
 			const item_t right_value = expression_literal_get_integer(RHS);
+			if ((op == BIN_DIV || op == BIN_REM) && right_value == 0)
+			{
+				return expression_binary(type, LHS, RHS, op, loc);
+			}
+
 			node_remove(LHS);
 			node_remove(RHS);
 
-- 
2.43.0


From 3386a427c725d87f5891fe8c950824c20209738c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:34:32 +0000
Subject: [PATCH 13/95] fix: pass functions that are defined after their use as
 arguments

---
 libs/compiler/codegen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 8e4336b..78e8f72 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -727,8 +727,15 @@ static void emit_argument(encoder *const enc, const node *const nd)
 	if (type_is_function(enc->sx, arg_type))
 	{
 		const size_t identifier = expression_identifier_get_id(nd);
-		const item_t displ = displacements_get(enc, identifier);
-		mem_add(enc, displ >= 0 ? IC_LI : IC_LOAD);
+		mem_add(enc, IC_LI);
+
+		// The function may be defined after its use, like a callee
+		const item_t displ = functions_get(enc, identifier);
+		if (displ < 0)
+		{
+			mem_set(enc, mem_size(enc) - 1, IC_LOAD);
+		}
+
 		mem_add(enc, abs(displ));
 	}
 	else if (expression_get_class(nd) == EXPR_INITIALIZER)
-- 
2.43.0


From ac572d1620551c33d363244acde127db65150a73 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:34:54 +0000
Subject: [PATCH 14/95] fix: refuse increments of constants

---
 libs/compiler/builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 8449089..8455f08 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -818,6 +818,12 @@ node build_unary_expression(builder *const bldr, node *const operand, const unar
 				return node_broken();
 			}
 
+			if (type_is_const(bldr->sx, operand_type))
+			{
+				semantic_error(bldr, op_loc, assign_to_const);
+				return node_broken();
+			}
+
 			return expression_unary(operand_type, RVALUE, operand, op_kind, loc);
 		}
 
-- 
2.43.0


From 7da196e24d5b7e7a8061f76819a016847352ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 15/95] fix: load logical values from arrays, members and
 pointers as one cell

---
 libs/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 78e8f72..cbe07ec 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -459,7 +459,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 			}
 			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
 			{
-				mem_add(enc, type_is_integer(enc->sx, value.type) ? IC_LAT : IC_LATD);
+				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
 
 			return;
-- 
2.43.0


From 5726ba32d84393d4389eaea803d936793b3e4597 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:39:05 +0000
Subject: [PATCH 16/95] fix: values of expressions that are not used do not
 stay on stack

---
 libs/compiler/codegen.c | 134 +++++++++++++++++++++++++++++++---------
 1 file changed, 106 insertions(+), 28 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index cbe07ec..aaa4a43 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -1146,8 +1146,9 @@ static void emit_binary_expression(encoder *const enc, const node *const nd)
  *
  *	@param	enc			Encoder
  *	@param	nd			Node in AST
+ *	@param	is_void		Set, if the value is not used
  */
-static void emit_ternary_expression(encoder *const enc, const node *const nd)
+static void emit_ternary_expression(encoder *const enc, const node *const nd, const bool is_void)
 {
 	const node condition = expression_ternary_get_condition(nd);
 	emit_expression(enc, &condition);
@@ -1156,14 +1157,14 @@ static void emit_ternary_expression(encoder *const enc, const node *const nd)
 	size_t addr = mem_reserve(enc);
 
 	const node LHS = expression_ternary_get_LHS(nd);
-	emit_expression(enc, &LHS);
+	is_void ? emit_void_expression(enc, &LHS) : emit_expression(enc, &LHS);
 
 	mem_set(enc, addr, (item_t)mem_size(enc) + 2);
 	mem_add(enc, IC_B);
 	addr = mem_reserve(enc);
 
 	const node RHS = expression_ternary_get_RHS(nd);
-	emit_expression(enc, &RHS);
+	is_void ? emit_void_expression(enc, &RHS) : emit_expression(enc, &RHS);
 
 	mem_set(enc, addr, (item_t)mem_size(enc));
 }
@@ -1286,7 +1287,7 @@ static void emit_expression(encoder *const enc, const node *const nd)
 			return;
 
 		case EXPR_TERNARY:
-			emit_ternary_expression(enc, nd);
+			emit_ternary_expression(enc, nd, false);
 			return;
 
 		case EXPR_ASSIGNMENT:
@@ -1303,6 +1304,21 @@ static void emit_expression(encoder *const enc, const node *const nd)
 	}
 }
 
+/**
+ *	Emit removal of a value from the top of stack
+ *
+ *	@param	enc			Encoder
+ *	@param	size		Size of the value
+ */
+static void emit_pop(encoder *const enc, const size_t size)
+{
+	for (size_t i = 0; i < size; i++)
+	{
+		mem_add(enc, IC_BE0);
+		mem_add(enc, (item_t)mem_size(enc) + 1);
+	}
+}
+
 /**
  *	Emit expression which will be evaluated as a void expression
  *
@@ -1313,19 +1329,95 @@ static void emit_void_expression(encoder *const enc, const node *const nd)
 {
 	if (expression_is_lvalue(nd))
 	{
-		emit_lvalue(enc, nd);
+		const lvalue value = emit_lvalue(enc, nd);
+		if (value.kind == ADDRESS)
+		{
+			emit_pop(enc, 1);
+		}
+
+		return;
 	}
-	else
+
+	const item_t type = expression_get_type(nd);
+	const size_t size = type_is_void(type) ? 0 : type_size(enc->sx, type);
+
+	switch (expression_get_class(nd))
 	{
-		emit_expression(enc, nd);
+		case EXPR_ASSIGNMENT:
+		{
+			emit_expression(enc, nd);
+			if (type_is_structure(enc->sx, type))
+			{
+				return;
+			}
+
+			break;
+		}
+
+		case EXPR_CALL:
+		{
+			emit_expression(enc, nd);
+
+			const node callee = expression_call_get_callee(nd);
+			if (expression_identifier_get_id(&callee) >= BEGIN_USER_FUNC)
+			{
+				emit_pop(enc, size);
+			}
+
+			return;
+		}
+
+		case EXPR_UNARY:
+		{
+			emit_expression(enc, nd);
+
+			const unary_t op = expression_unary_get_operator(nd);
+			if (op == UN_POSTINC || op == UN_POSTDEC || op == UN_PREINC || op == UN_PREDEC)
+			{
+				break;
+			}
+
+			emit_pop(enc, size);
+			return;
+		}
+
+		case EXPR_BINARY:
+		{
+			if (expression_binary_get_operator(nd) == BIN_COMMA)
+			{
+				const node LHS = expression_binary_get_LHS(nd);
+				emit_void_expression(enc, &LHS);
+
+				const node RHS = expression_binary_get_RHS(nd);
+				emit_void_expression(enc, &RHS);
+				return;
+			}
+
+			emit_expression(enc, nd);
+			emit_pop(enc, size);
+			return;
+		}
 
-		const size_t index = mem_get(enc, mem_size(enc) - 1) < MIN_INSTRUCTION_CODE
-			? mem_size(enc) - 2
-			: mem_size(enc) - 1;
+		case EXPR_TERNARY:
+			emit_ternary_expression(enc, nd, true);
+			return;
+
+		case EXPR_INITIALIZER:
+			emit_expression(enc, nd);
+			return;
 
-		const instruction_t operation = (instruction_t)mem_get(enc, index);
-		mem_set(enc, index, instruction_to_void_ver(operation));
+		default:
+			emit_expression(enc, nd);
+			emit_pop(enc, size);
+			return;
 	}
+
+	const size_t index = mem_get(enc, mem_size(enc) - 1) < MIN_INSTRUCTION_CODE
+		? mem_size(enc) - 2
+		: mem_size(enc) - 1;
+
+	const instruction_t operation = (instruction_t)mem_get(enc, index);
+	mem_set(enc, index, instruction_to_void_ver(operation));
 }
 
 
@@ -1675,17 +1767,6 @@ static void emit_declaration_statement(encoder *const enc, const node *const nd)
 	}
 }
 
-/**
- *	Emit removal of the value from the top of stack
- *
- *	@param	enc			Encoder
- */
-static void emit_pop(encoder *const enc)
-{
-	mem_add(enc, IC_BE0);
-	mem_add(enc, (item_t)mem_size(enc) + 1);
-}
-
 /**
  *	Emit case statement
  *
@@ -1805,7 +1886,7 @@ static void emit_switch_statement(encoder *const enc, const node *const nd)
 	mem_set(enc, enc->addr_case, (item_t)(enc->addr_default != 0 ? enc->addr_default : mem_size(enc)));
 
 	addr_end_break(enc);
-	emit_pop(enc);
+	emit_pop(enc, 1);
 
 	enc->addr_default = old_addr_default;
 	enc->addr_case = old_addr_case;
@@ -1943,10 +2024,7 @@ static void emit_for_statement(encoder *const enc, const node *const nd)
  */
 static void emit_continue_statement(encoder *const enc)
 {
-	for (size_t i = 0; i < enc->selectors; i++)
-	{
-		emit_pop(enc);
-	}
+	emit_pop(enc, enc->selectors);
 
 	mem_add(enc, IC_B);
 	mem_add(enc, (item_t)enc->addr_cond);
-- 
2.43.0


From b3814a2ddf303704e28196f38ea03e7ff41e003d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 17/95] fix: unused results of built-in functions do not stay
 on stack

---
 libs/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index aaa4a43..1d2014f 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -1359,7 +1359,7 @@ static void emit_void_expression(encoder *const enc, const node *const nd)
 			emit_expression(enc, nd);
 
 			const node callee = expression_call_get_callee(nd);
-			if (expression_identifier_get_id(&callee) >= BEGIN_USER_FUNC)
+			if (expression_identifier_get_id(&callee) != BI_PRINTF)
 			{
 				emit_pop(enc, size);
 			}
-- 
2.43.0


From 7654740e0c8cd9a82d1b8a64d5a6797a62de8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:05:22 +0000
Subject: [PATCH 18/95] fix: load and store pointers in array elements and
 structure members

---
 libs/compiler/codegen.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 1d2014f..01d25d0 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -457,7 +457,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 				mem_add(enc, IC_COPY1ST);
 				mem_add(enc, (item_t)type_size(enc->sx, value.type));
 			}
-			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
+			else if (!type_is_array(enc->sx, value.type))
 			{
 				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
@@ -542,7 +542,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 		emit_expression(enc, &base);
 		mem_add(enc, IC_SELECT);
 		mem_add(enc, member_displ);
-		if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+		if (type_is_array(enc->sx, type))
 		{
 			mem_add(enc, IC_LAT);
 		}
@@ -562,7 +562,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 			mem_add(enc, IC_SELECT);
 			mem_add(enc, member_displ);
 
-			if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+			if (type_is_array(enc->sx, type))
 			{
 				mem_add(enc, IC_LAT);
 			}
@@ -585,12 +585,7 @@ static lvalue emit_indirection_lvalue(encoder *const enc, const node *const nd)
 	const item_t type = expression_get_type(nd);
 	const item_t unqualified_type = type_is_const(enc->sx, type) ? type_const_get_unqualified_type(enc->sx, type) : type;
 	const node operand = expression_unary_get_operand(nd);
-	const lvalue value = emit_lvalue(enc, &operand);
-	if (value.kind == VARIABLE)
-	{
-		mem_add(enc, IC_LOAD);
-		mem_add(enc, value.displ);
-	}
+	emit_expression(enc, &operand);
 
 	return (lvalue){ .kind = ADDRESS, .type = unqualified_type };
 }
-- 
2.43.0


From e638c9efd651f107b1363e0106541bf21f105ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 19/95] fix: assignments of structures yield their value

---
 libs/compiler/codegen.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 01d25d0..758372a 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -1169,16 +1169,24 @@ static void emit_ternary_expression(encoder *const enc, const node *const nd, co
  *
  *	@param	enc			Encoder
  *	@param	nd			Node in AST
+ *	@param	is_void		Whether the value of a structure assignment is unused
  */
-static void emit_assignment_expression(encoder *const enc, const node *const nd)
+static void emit_assignment_expression(encoder *const enc, const node *const nd, const bool is_void)
 {
+	const item_t type = expression_get_type(nd);
 	const node LHS = expression_assignment_get_LHS(nd);
 	const lvalue value = emit_lvalue(enc, &LHS);
 
+	// Structure assignment instructions leave no value, so it is loaded again if it is used
+	const bool is_reloaded = !is_void && type_is_structure(enc->sx, type);
+	if (is_reloaded && value.kind == ADDRESS)
+	{
+		mem_add(enc, IC_DUPLICATE);
+	}
+
 	const node RHS = expression_assignment_get_RHS(nd);
 	emit_expression(enc, &RHS);
 
-	const item_t type = expression_get_type(nd);
 	if (type_is_structure(enc->sx, type))
 	{
 		if (value.kind == VARIABLE)
@@ -1192,6 +1200,10 @@ static void emit_assignment_expression(encoder *const enc, const node *const nd)
 		}
 
 		mem_add(enc, (item_t)type_size(enc->sx, type));
+		if (is_reloaded)
+		{
+			emit_load_of_lvalue(enc, (lvalue){ .kind = value.kind, .type = type, .displ = value.displ });
+		}
 	}
 	else // Скалярное присваивание
 	{
@@ -1286,7 +1298,7 @@ static void emit_expression(encoder *const enc, const node *const nd)
 			return;
 
 		case EXPR_ASSIGNMENT:
-			emit_assignment_expression(enc, nd);
+			emit_assignment_expression(enc, nd, false);
 			return;
 
 		case EXPR_INITIALIZER:
@@ -1340,7 +1352,7 @@ static void emit_void_expression(encoder *const enc, const node *const nd)
 	{
 		case EXPR_ASSIGNMENT:
 		{
-			emit_expression(enc, nd);
+			emit_assignment_expression(enc, nd, true);
 			if (type_is_structure(enc->sx, type))
 			{
 				return;
-- 
2.43.0


From 32301b4a942993def3276bb1056b119f6e5712e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:37:19 +0000
Subject: [PATCH 20/95] fix: pass structure and logical initialisers as
 arguments

---
 libs/compiler/codegen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 758372a..63eb759 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -733,7 +733,7 @@ static void emit_argument(encoder *const enc, const node *const nd)
 
 		mem_add(enc, abs(displ));
 	}
-	else if (expression_get_class(nd) == EXPR_INITIALIZER)
+	else if (expression_get_class(nd) == EXPR_INITIALIZER && type_is_array(enc->sx, arg_type))
 	{
 		mem_add(enc, IC_LI);
 		const size_t reserved = mem_size(enc) + 4;
@@ -755,6 +755,10 @@ static void emit_argument(encoder *const enc, const node *const nd)
 			{
 				mem_add(enc, expression_literal_get_integer(&subexpr));
 			}
+			else if (type_is_boolean(enc->sx, expression_get_type(&fst)))
+			{
+				mem_add(enc, expression_literal_get_boolean(&subexpr) ? 1 : 0);
+			}
 			else
 			{
 				mem_add_double(enc, expression_literal_get_floating(&subexpr));
-- 
2.43.0


From 4a92a2dda3f4891306f342cd862fe007d44ddc8b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 21/95] fix: constants of different basic types are different
 types

---
 libs/compiler/syntax.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index d49c94a..0900191 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -128,11 +128,6 @@ static inline bool type_is_equal(const syntax *const sx, const size_t first, con
 	size_t length = 1;
 	const item_t type = vector_get(&sx->types, first);
 
-	if (type == TYPE_CONST)
-	{
-		return type_is_equal(sx, type_const_get_unqualified_type(sx, first), type_const_get_unqualified_type(sx, second));
-	}
-
 	// Определяем, сколько полей надо сравнивать для различных типов записей
 	if (type == TYPE_STRUCTURE || type == TYPE_FUNCTION)
 	{
-- 
2.43.0


From 339ea4ab4f6fb2fb8f3a80ffb7b5f64fe89c4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:49:46 +0000
Subject: [PATCH 22/95] fix: prefix operators of directive expressions apply to
 brackets and negate zero

---
 libs/macro/computer.c | 45 ++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index d345b9d..6ee8643 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -256,43 +256,52 @@ static inline int computer_compare_priority(const item_t fst, const item_t snd)
 	}
 }
 
-static inline int computer_const_number(computer *const comp, const item_t pos, item_t num, const char *const name)
+/**
+ *	Apply all prefix operators before the last complete operand
+ *
+ *	@param	comp		Сomputer structure
+ *
+ *	@return	@c 0 on success, @c -1 on failure
+ */
+static int computer_apply_prefix(computer *const comp)
 {
-	if (comp->was_number)
-	{
-		computer_error(comp, pos, EXPR_MISSING_BINARY, name);
-		return -1;
-	}
-
-	comp->was_number = true;
+	item_t num = stack_pop(&comp->numbers);
 	while (true)
 	{
 		switch (stack_peek(&comp->operators))
 		{
 			case TK_COMPL:
-				stack_pop(&comp->operators);
-				stack_pop(&comp->operators);
 				num = ~num;
 				break;
 			case TK_NOT:
-				stack_pop(&comp->operators);
-				stack_pop(&comp->operators);
-				num = num != 0 ? 1 : 0;
+				num = num == 0 ? 1 : 0;
 				break;
 			case TK_U_NEGATION:
-				stack_pop(&comp->operators);
-				stack_pop(&comp->operators);
 				num = -num;
 				break;
 			case TK_U_PLUS:
-				stack_pop(&comp->operators);
-				stack_pop(&comp->operators);
 				break;
 
 			default:
 				return stack_push(&comp->numbers, num);
 		}
+
+		stack_pop(&comp->operators);
+		stack_pop(&comp->operators);
+	}
+}
+
+static inline int computer_const_number(computer *const comp, const item_t pos, const item_t num, const char *const name)
+{
+	if (comp->was_number)
+	{
+		computer_error(comp, pos, EXPR_MISSING_BINARY, name);
+		return -1;
 	}
+
+	comp->was_number = true;
+	stack_push(&comp->numbers, num);
+	return computer_apply_prefix(comp);
 }
 
 
@@ -345,7 +354,7 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	{
 		stack_pop(&comp->operators);
 		stack_pop(&comp->operators);
-		return 0;
+		return computer_apply_prefix(comp);
 	}
 
 	const int priority = computer_compare_priority(previous, tk);
-- 
2.43.0


From 12a02692afa45df2c3b3a1ebc6fe57ae9c6f0aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:50:43 +0000
Subject: [PATCH 23/95] fix: report division by zero in directive expressions

---
 libs/macro/computer.c | 12 +++++++++---
 libs/macro/error.c    |  3 +++
 libs/macro/error.h    |  1 +
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 6ee8643..368fc70 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -166,19 +166,25 @@ static inline int computer_token_without_number(computer *const comp, const item
 static int computer_select_three(computer *const comp)
 {
 	const token_t operator = stack_pop(&comp->operators);
-	stack_pop(&comp->operators);
+	const item_t pos = stack_pop(&comp->operators);
 
 	const item_t second = stack_pop(&comp->numbers);
 	const item_t first = stack_pop(&comp->numbers);
 
+	if ((operator == TK_DIV || operator == TK_MOD) && second == 0)
+	{
+		computer_error(comp, pos, EXPR_DIVISION_BY_ZERO);
+		return stack_push(&comp->numbers, 0);
+	}
+
 	switch(operator)
 	{
 		case TK_MULT:
 			return stack_push(&comp->numbers, first * second);
 		case TK_DIV:
-			return stack_push(&comp->numbers, first / second);
+			return stack_push(&comp->numbers, second == -1 ? 0 - first : first / second);
 		case TK_MOD:
-			return stack_push(&comp->numbers, first % second);
+			return stack_push(&comp->numbers, second == -1 ? 0 : first % second);
 		case TK_ADD:
 			return stack_push(&comp->numbers, first + second);
 		case TK_SUB:
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 24f53b2..55e6592 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -287,6 +287,9 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
+		case EXPR_DIVISION_BY_ZERO:
+			sprintf(msg, "деление на ноль в выражении препроцессора");
+			break;
 
 		default:
 			sprintf(msg, "неизвестная ошибка");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 1c281e6..eb6a852 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -73,6 +73,7 @@ typedef enum ERROR
 	EXPR_MISSING_BETWEEN,
 	EXPR_NO_LEFT_OPERAND,
 	EXPR_NO_RIGHT_OPERAND,
+	EXPR_DIVISION_BY_ZERO,
 } error_t;
 
 /** Warning codes */
-- 
2.43.0


From 451008ba9cf5019ddcf057d935c8e959a409321f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:52:44 +0000
Subject: [PATCH 24/95] fix: headers included after a header are searched next
 to the including file

---
 libs/macro/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 506e545..2f5f28f 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1102,9 +1102,11 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 	}
 
 	parse_extra(prs, storage_last_read(prs->stg));
+	const size_t current = linker_get_index(prs->lk);
 	universal_io header = linker_add_header(prs->lk, index);
 	parser_preprocess(prs, &header);
 	in_clear(&header);
+	linker_set_index(prs->lk, current);
 }
 
 /**
-- 
2.43.0


From 273f4539cbf39b2d2c79e669684a7571ed475cfd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:52:59 +0000
Subject: [PATCH 25/95] fix: empty macro arguments are replaced by nothing

---
 libs/macro/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 2f5f28f..8e721ea 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -708,8 +708,9 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 		if (ch == '#' || utf8_is_letter(ch))
 		{
 			const size_t current = storage_search(stg, prs->io);
-			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
-				? storage_last_read(stg) : storage_get_by_index(stg, current));
+			const char *const value = kw_is_correct(current) || current == SIZE_MAX
+				? storage_last_read(stg) : storage_get_by_index(stg, current);
+			uni_printf(prs->io, "%s", value != NULL ? value : "");
 		}
 		else if (ch == '\'' || ch == '"')
 		{
-- 
2.43.0


From 2dd380c0dd4b491ff6d156f9a7fc2ef8b41468fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:53:37 +0000
Subject: [PATCH 26/95] fix: stringising an argument keeps the spelling of its
 literals

---
 libs/macro/parser.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 8e721ea..8baad8b 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -602,16 +602,26 @@ static inline void parse_values(parser *const prs, const size_t index, storage *
 	in_set_position(&io, 0);
 	out_set_buffer(&io, MAX_VALUE_SIZE);
 	uni_print_char(&io, '"');
+	char32_t quote = '\0';
 	for (char32_t ch = uni_scan_char(&io); ch != (char32_t)EOF; ch = uni_scan_char(&io))
 	{
-		if (ch == '\\')
+		uni_printf(&io, "%s", ch == '"' || (ch == '\\' && quote != '\0') ? "\\" : "");
+		uni_print_char(&io, ch);
+
+		if (ch == '\\' && quote != '\0')
 		{
 			ch = uni_scan_char(&io);
-			uni_printf(&io, "%s", ch == '"' ? "\\\\" : ch != (char32_t)EOF ? "\\" : "");
+			uni_printf(&io, "%s", ch == '"' || ch == '\\' ? "\\" : "");
+			uni_print_char(&io, ch);
+		}
+		else if (ch == quote)
+		{
+			quote = '\0';
+		}
+		else if (quote == '\0' && (ch == '"' || ch == '\''))
+		{
+			quote = ch;
 		}
-
-		uni_printf(&io, "%s", ch == '"' ? "\\" : "");
-		uni_print_char(&io, ch);
 	}
 	uni_print_char(&io, '"');
 	in_clear(&io);
-- 
2.43.0


From 7656ebdf037d2e899ca77f91870ca46d34c18bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:54:16 +0000
Subject: [PATCH 27/95] fix: arguments before a token-pasting operator are not
 expanded

---
 libs/macro/parser.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 8baad8b..b1c628c 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1812,6 +1812,27 @@ static inline bool parse_operator(parser *const prs, storage *const stg, const b
 	return true;
 }
 
+/**
+ *	Check that the next token is a token-pasting operator.
+ *	Exit without reading anything.
+ *
+ *	@param	prs			Parser structure
+ *
+ *	@return	@c true on token-pasting operator
+ */
+static bool parse_is_pasted(parser *const prs)
+{
+	const size_t position = in_get_position(prs->io);
+	const location loc = loc_copy(prs->loc);
+
+	skip_until(prs, false);
+	const bool is_pasted = uni_scan_char(prs->io) == '#' && uni_scan_char(prs->io) == '#';
+
+	in_set_position(prs->io, position);
+	*prs->loc = loc;
+	return is_pasted;
+}
+
 /**
  *	Parse macro content and prepare value for saving.
  *	All separator sequences will be replaced by a single space.
@@ -1851,7 +1872,7 @@ static inline char *parse_content(parser *const prs, storage *const stg)
 				const char *value = storage_get_by_index(stg, storage_search(stg, prs->io));
 				if (value != NULL)
 				{
-					uni_printf(prs->io, MASK_ARGUMENT "%s", value);
+					uni_printf(prs->io, "%s%s", parse_is_pasted(prs) ? MASK_TOKEN_PASTE : MASK_ARGUMENT, value);
 				}
 				else
 				{
-- 
2.43.0


From fed0591c8e62ef2aea5b3ef25683c10b62925f74 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:54:56 +0000
Subject: [PATCH 28/95] fix: macro names inside number tokens are not replaced

---
 libs/macro/parser.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index b1c628c..b7dabd7 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -227,6 +227,25 @@ static char32_t skip_string(parser *const prs, const char32_t quote)
 	return character;
 }
 
+/**
+ *	Write number to output with all letters, digits and points that follow.
+ *	They belong to the number token, so it doesn't contain identifiers.
+ *	Stopped without last character read and processed.
+ *
+ *	@param	prs			Parser structure
+ */
+static void skip_number(parser *const prs)
+{
+	char32_t character = uni_scan_char(prs->io);
+	while (character == '.' || utf8_is_letter(character) || utf8_is_digit(character))
+	{
+		uni_print_char(prs->io, character);
+		character = uni_scan_char(prs->io);
+	}
+
+	uni_unscan_char(prs->io, character);
+}
+
 /**
  *	Skip all comments, space and tab characters until first significant character.
  *	Line break is also a significant character.
@@ -471,6 +490,10 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 			parser_error(prs, prs->loc, HASH_STRAY);
 			return skip_directive(prs);
 		}
+		else if (utf8_is_digit(character))
+		{
+			skip_number(prs);
+		}
 		else
 		{
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -727,6 +750,10 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 			uni_print_char(prs->io, uni_scan_char(prs->io));
 			uni_print_char(prs->io, skip_string(prs, ch));
 		}
+		else if (utf8_is_digit(ch))
+		{
+			skip_number(prs);
+		}
 		else
 		{
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -892,6 +919,10 @@ static inline char32_t parse_until(parser *const prs)
 			uni_print_char(prs->io, uni_scan_char(prs->io));
 			uni_print_char(prs->io, skip_string(prs, character));
 		}
+		else if (utf8_is_digit(character))
+		{
+			skip_number(prs);
+		}
 		else
 		{
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -1890,6 +1921,10 @@ static inline char *parse_content(parser *const prs, storage *const stg)
 				}
 				uni_print_char(prs->io, character);
 			}
+			else if (utf8_is_digit(character))
+			{
+				skip_number(prs);
+			}
 			else
 			{
 				uni_print_char(prs->io, uni_scan_char(prs->io));
-- 
2.43.0


From d11f930fb27510f276cb24f36a7b5348e9d003b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 17:58:33 +0000
Subject: [PATCH 29/95] fix: misplaced branch directives in skipped text make
 preprocessing fail

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index b7dabd7..fcdc46f 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -520,7 +520,6 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 static keyword_t skip_block(parser *const prs, const keyword_t begin)
 {
 	universal_io out = io_create();
-	const bool was_error = prs->was_error;
 	const bool is_recovery_disabled = prs->is_recovery_disabled;
 	const bool is_root_macro = begin == KW_MACRO && !prs->is_macro_processed && out_is_correct(prs->io);
 	prs->is_macro_processed = is_root_macro ? true : prs->is_macro_processed;
@@ -528,6 +527,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 	char32_t character = '\0';
 	while (character != (char32_t)EOF)
 	{
+		const bool was_error = prs->was_error;
 		if (!prs->is_macro_processed)
 		{
 			prs->is_recovery_disabled = true;
-- 
2.43.0


From 353708902671d48da9ed78bf43cdac2e5c1a2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:05:19 +0000
Subject: [PATCH 30/95] fix: an unpaired quote in skipped text does not swallow
 the next line

---
 libs/macro/parser.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index fcdc46f..bd17d25 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -189,7 +189,7 @@ static inline void skip_multi_comment(parser *const prs)
 /**
  *	Write string content to output after quote.
  *	Stop when read the closing quote, without printing.
- *	Also stopped after @c '\n' read without backslash.
+ *	Also stopped before @c '\n' without backslash.
  *
  *	@param	prs			Parser structure
  *	@param	quote		Expected closing quote
@@ -208,17 +208,21 @@ static char32_t skip_string(parser *const prs, const char32_t quote)
 	while (was_slash || character != quote)
 	{
 		character = character == '\r' ? uni_scan_char(prs->io) : character;
-		if (character == '\n')
-		{
-			loc_line_break(prs->loc);
-		}
-
 		if (character == (char32_t)EOF || (!was_slash && character == '\n'))
 		{
 			parser_error(prs, &loc, STRING_UNTERMINATED, quote);
+			if (character == '\n')
+			{
+				uni_unscan_char(prs->io, character);
+			}
 			break;
 		}
 
+		if (character == '\n')
+		{
+			loc_line_break(prs->loc);
+		}
+
 		uni_print_char(prs->io, character);
 		was_slash = !was_slash && character == '\\';
 		character = uni_scan_char(prs->io);
-- 
2.43.0


From 9fbfd04606a1218760a72fd47d0baf1aa1bd6996 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:10:21 +0000
Subject: [PATCH 31/95] fix: redefining a macro with an empty replacement takes
 effect

---
 libs/macro/storage.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/macro/storage.c b/libs/macro/storage.c
index 26c1808..faad6e3 100644
--- a/libs/macro/storage.c
+++ b/libs/macro/storage.c
@@ -162,10 +162,7 @@ size_t storage_set_by_index(storage *const stg, const size_t id, const char *val
 	}
 
 	const size_t index = strings_add(&stg->vec, value);
-	if (index != SIZE_MAX)
-	{
-		hash_set_by_index(&stg->hs, id, 0, (item_t)index);
-	}
+	hash_set_by_index(&stg->hs, id, 0, index != SIZE_MAX ? (item_t)index : ITEM_MAX);
 	return id;
 }
 
-- 
2.43.0


From 8ef2d7ba553d099e7fa16e7ca2d4401e8125a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 32/95] fix: macros that call themselves more than once no
 longer expand without end

---
 libs/macro/parser.c | 51 +++++++++++++++++++++++++++++++++++++--------
 libs/macro/parser.h |  1 +
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index bd17d25..52c98c7 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -832,6 +832,42 @@ static bool parse_replacement(parser *const prs, const size_t index)
 	return expected == actual;
 }
 
+/**
+ *	Begin macro call.
+ *	Emit an error on @c MAX_CALL_DEPTH reached, then no more calls are made until the outermost one ends.
+ *
+ *	@param	prs			Parser structure
+ *
+ *	@return	@c true on success, @c false on failure
+ */
+static inline bool call_begin(parser *const prs)
+{
+	if (prs->call > MAX_CALL_DEPTH && !prs->is_call_stopped)
+	{
+		parser_error(prs, NULL, CALL_DEPTH);
+		prs->is_call_stopped = true;
+	}
+
+	if (prs->is_call_stopped)
+	{
+		return false;
+	}
+
+	prs->call++;
+	return true;
+}
+
+/**
+ *	End macro call.
+ *
+ *	@param	prs			Parser structure
+ */
+static inline void call_end(parser *const prs)
+{
+	prs->call--;
+	prs->is_call_stopped = prs->is_call_stopped && prs->call != 0;
+}
+
 /**
  *	Parse and replace identifier, if macro name recognized.
  *	Emit an error on @c MAX_CALL_DEPTH reached.
@@ -850,14 +886,12 @@ static inline void parse_identifier(parser *const prs)
 		return;
 	}
 
-	if (prs->call > MAX_CALL_DEPTH)
+	if (!call_begin(prs))
 	{
-		parser_error(prs, NULL, CALL_DEPTH);
 		uni_printf(prs->io, "%s", storage_last_read(prs->stg));
 		return;
 	}
 
-	prs->call++;
 	if (in_is_file(prs->io))
 	{
 		const size_t end = in_get_position(prs->io);
@@ -887,7 +921,7 @@ static inline void parse_identifier(parser *const prs)
 	{
 		parse_replacement(prs, index);
 	}
-	prs->call--;
+	call_end(prs);
 }
 
 /**
@@ -1568,9 +1602,8 @@ static item_t parse_expression(parser *const prs)
 				continue;
 			}
 
-			if (prs->call > MAX_CALL_DEPTH)
+			if (!call_begin(prs))
 			{
-				parser_error(prs, NULL, CALL_DEPTH);
 				break;
 			}
 
@@ -1585,17 +1618,16 @@ static item_t parse_expression(parser *const prs)
 
 			out_set_buffer(&out, MAX_VALUE_SIZE);
 			out_swap(prs->io, &out);
-			prs->call++;
 
 			if (!parse_replacement(prs, index))
 			{
-				prs->call--;
+				call_end(prs);
 				out_swap(prs->io, &out);
 				out_clear(&out);
 				break;
 			}
 
-			prs->call--;
+			call_end(prs);
 			out_swap(prs->io, &out);
 			buffer = out_extract_buffer(&out);
 			in_set_buffer(&out, buffer);
@@ -2470,6 +2502,7 @@ parser parser_create(linker *const lk, storage *const stg, universal_io *const o
 	prs.call = 0;
 
 	prs.is_recovery_disabled = false;
+	prs.is_call_stopped = false;
 	prs.is_line_required = false;
 	prs.is_macro_processed = false;
 	prs.was_error = false;
diff --git a/libs/macro/parser.h b/libs/macro/parser.h
index 7cc8d81..593e177 100644
--- a/libs/macro/parser.h
+++ b/libs/macro/parser.h
@@ -41,6 +41,7 @@ typedef struct parser
 	size_t call;					/**< Current macro call depth */
 
 	bool is_recovery_disabled;		/**< Set, if error recovery & multiple output disabled */
+	bool is_call_stopped;			/**< Set, if call depth exceeded until the outermost call ends */
 	bool is_line_required;			/**< Set, if position directive required */
 	bool is_macro_processed;		/**< Set, if macro block processed */
 	bool was_error;					/**< Set, if error message occurred */
-- 
2.43.0


From eec2c94cd656c87bbe7e252d53935a0336d518b8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 33/95] fix: an argument list that ends with the replacement
 text no longer hangs the preprocessor

---
 libs/macro/parser.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 52c98c7..b42cc32 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -702,11 +702,16 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 			character = skip_lines(prs);
 			if (character == (char32_t)EOF)
 			{
-				parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
-				arg = SIZE_MAX;
+				break;
 			}
 		}
 
+		if (character == (char32_t)EOF)
+		{
+			parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
+			arg = SIZE_MAX;
+		}
+
 		if (arg != SIZE_MAX)
 		{
 			char *buffer = out_extract_buffer(prs->io);
-- 
2.43.0


From bacdb63108f2e8f87d75b3bafe987c95b112ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:52:07 +0000
Subject: [PATCH 34/95] fix: arguments are not substituted after the call depth
 was exceeded

---
 libs/macro/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index b42cc32..3faf0b9 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -823,7 +823,10 @@ static bool parse_replacement(parser *const prs, const size_t index)
 	const size_t actual = parse_brackets(prs, index, &stg);
 	if (expected == actual)
 	{
-		parse_observation(prs, index, &stg);
+		if (!prs->is_call_stopped)
+		{
+			parse_observation(prs, index, &stg);
+		}
 	}
 	else if (actual != SIZE_MAX)
 	{
-- 
2.43.0


From 7fcaea3c4a26856d389e4f9a79a003cd4f6e716b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 35/95] fix: prefixed numbers of directive expressions are read
 from macros too and need digits

---
 libs/macro/parser.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 3faf0b9..5f1a948 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1272,6 +1272,30 @@ static inline bool parse_suffix(parser *const prs)
 	}
 }
 
+/**
+ *	Parse digits after the base prefix.
+ *
+ *	@param	prs			Parser structure
+ *	@param	base		Number base
+ *	@param	number		Parsed number
+ *
+ *	@return	@c true on success, @c false if there are no digits
+ */
+static inline bool parse_digits(parser *const prs, const uint8_t base, unsigned long long *const number)
+{
+	bool is_number = false;
+	char32_t character = uni_scan_char(prs->io);
+	while (utf8_is_hexa_digit(character) && utf8_to_number(character) < base)
+	{
+		*number = *number * base + utf8_to_number(character);
+		is_number = true;
+		character = uni_scan_char(prs->io);
+	}
+
+	uni_unscan_char(prs->io, character);
+	return is_number;
+}
+
 /**
  *	Parse an integer number for the expression computer.
  *	First character should be checked before call.
@@ -1286,38 +1310,34 @@ static inline bool parse_number(parser *const prs, computer *const comp, const s
 {
 	location loc = loc_copy(prs->loc);
 
+	const size_t begin = in_get_position(prs->io);
 	unsigned long long number = 0;
 	uni_scanf(prs->io, "%lld", &number);
 	size_t position = in_get_position(prs->io);
 	char32_t character = skip_until(prs, false);
 
-	if (number == 0 && pos + 1 == in_get_position(prs->io))
+	if (number == 0 && begin + 1 == in_get_position(prs->io))
 	{
 		bool was_error = false;
 		if (character == 'x' || character == 'X')
 		{
 			uni_scan_char(prs->io);
-			was_error = uni_scanf(prs->io, "%llx", &number) != 1;
+			was_error = !parse_digits(prs, 16, &number);
 		}
 		else if (character == 'd' || character == 'D')
 		{
 			uni_scan_char(prs->io);
-			was_error = uni_scanf(prs->io, "%lld", &number) != 1;
+			was_error = !parse_digits(prs, 10, &number);
 		}
 		else if (character == 'o' || character == 'O')
 		{
 			uni_scan_char(prs->io);
-			was_error = uni_scanf(prs->io, "%llo", &number) != 1;
+			was_error = !parse_digits(prs, 8, &number);
 		}
 		else if (character == 'b' || character == 'B')
 		{
-			char buffer[100] = "";
 			uni_scan_char(prs->io);
-			was_error = uni_scanf(prs->io, "%99[01]", buffer) != 1;
-			for (size_t i = 0; buffer[i] != '\0'; i++)
-			{
-				number = (number << 1) | (buffer[i] - '0');
-			}
+			was_error = !parse_digits(prs, 2, &number);
 		}
 
 		if (!was_error)
-- 
2.43.0


From 706e1b716c55427f2ee338d5be7a51d0519e6029 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 36/95] fix: an empty character constant is refused in
 directive expressions

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 5f1a948..19f9755 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1399,7 +1399,7 @@ static inline bool parse_sequence(parser *const prs, computer *const comp, const
 	out_swap(prs->io, &out);
 	char *buffer = out_extract_buffer(&out);
 
-	if (character == '"')
+	if (character == '"' || buffer[1] == (char)character)
 	{
 		parser_error(prs, &loc, EXPR_INVALID_TOKEN, buffer);
 		free(buffer);
-- 
2.43.0


From dc2d1d4f2d2e2156d4cf7622a45567f49e896cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 37/95] fix: replaced macros and arguments do not merge with
 the tokens next to them

---
 libs/macro/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 19f9755..a840179 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -752,7 +752,8 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 			const size_t current = storage_search(stg, prs->io);
 			const char *const value = kw_is_correct(current) || current == SIZE_MAX
 				? storage_last_read(stg) : storage_get_by_index(stg, current);
-			uni_printf(prs->io, "%s", value != NULL ? value : "");
+			const bool is_argument = strncmp(storage_last_read(stg), MASK_ARGUMENT, strlen(MASK_ARGUMENT)) == 0;
+			uni_printf(prs->io, is_argument ? " %s " : "%s", value != NULL ? value : "");
 		}
 		else if (ch == '\'' || ch == '"')
 		{
@@ -927,7 +928,9 @@ static inline void parse_identifier(parser *const prs)
 	}
 	else
 	{
+		uni_print_char(prs->io, ' ');
 		parse_replacement(prs, index);
+		uni_print_char(prs->io, ' ');
 	}
 	call_end(prs);
 }
-- 
2.43.0


From 64eeb8220bd274ba79a7fe2e13462b03816bea8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 38/95] fix: repeated slashes of paths are one slash

---
 libs/utils/workspace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index b88bf33..54cae67 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -66,6 +66,12 @@ static void ws_unix_path(const char *const path, char *const buffer)
 
 	while (path[i] != '\0')
 	{
+		if (i != 0 && (path[i] == '/' || path[i] == '\\') && (path[i - 1] == '/' || path[i - 1] == '\\'))
+		{
+			i++;
+			continue;
+		}
+
 		buffer[j++] = path[i] == '\\' ? '/' : path[i];
 
 		if (buffer[j - 1] == '/')
-- 
2.43.0


From 3281b592601d8fa43212c82368e1852082f076bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 39/95] fix: block comments may end with several asterisks

---
 libs/compiler/lexer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 28167ed..bf70835 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -101,7 +101,10 @@ static inline void skip_line_comment(lexer *const lxr)
  */
 static inline void skip_block_comment(lexer *const lxr)
 {
-	while (lxr->character != '*' || scan(lxr) != '/')
+	bool was_star = false;
+	scan(lxr);
+
+	while (!was_star || lxr->character != '/')
 	{
 		if (lxr->character == (char32_t)EOF)
 		{
@@ -109,6 +112,7 @@ static inline void skip_block_comment(lexer *const lxr)
 			return;
 		}
 
+		was_star = lxr->character == '*';
 		scan(lxr);
 	}
 
-- 
2.43.0


From 70febe664f5bee96edc29f1b54e93acefa4c275a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:52:30 +0000
Subject: [PATCH 40/95] fix: string literals separated by comments or macro
 calls are joined

---
 libs/compiler/lexer.c | 45 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index bf70835..1bea075 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -145,6 +145,49 @@ static token lex_identifier_or_keyword(lexer *const lxr)
 	return token_keyword((location){ loc_begin, loc_end }, (token_t)ref);
 }
 
+/**
+ *	Skip over everything that may stand between string literals which are joined:
+ *	whitespace characters, comments and line directives
+ *
+ *	@param	lxr			Lexer
+ */
+static void skip_separators(lexer *const lxr)
+{
+	while (true)
+	{
+		skip_whitespace(lxr);
+		const char32_t character = lxr->character;
+		const size_t position = in_get_position(lxr->sx->io);
+
+		if (character == '/')
+		{
+			switch (scan(lxr))
+			{
+				case '/':
+					skip_line_comment(lxr);
+					continue;
+
+				case '*':
+					skip_block_comment(lxr);
+					continue;
+			}
+		}
+		else if (character == '#')
+		{
+			const token token = lex_identifier_or_keyword(lxr);
+			if (token_is(&token, TK_LINE))
+			{
+				skip_line_comment(lxr);
+				continue;
+			}
+		}
+
+		lxr->character = character;
+		in_set_position(lxr->sx->io, position);
+		return;
+	}
+}
+
 /**
  *	Lex numeric literal
  *
@@ -436,7 +479,7 @@ static token lex_string_literal(lexer *const lxr)
 			lexer_error(lxr, missing_terminating_quote_char);
 		}
 
-		skip_whitespace(lxr);
+		skip_separators(lxr);
 	}
 
 	const size_t loc_end = in_get_position(lxr->sx->io);
-- 
2.43.0


From 29386d6a1584673b0af80f2107d584d6b263f936 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 41/95] fix: long source lines do not overflow the buffers of
 messages

---
 libs/utils/locator.c |  3 ++-
 libs/utils/logger.c  | 54 +++++++++++++++++++++++++-------------------
 2 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 9d035bb..68da766 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -24,6 +24,7 @@
 
 
 #define MAX_PATH 1024
+#define MAX_CODE 4088
 
 
 static const size_t FIRST_LINE = 1;
@@ -404,7 +405,7 @@ size_t loc_get_code_line(location *const loc, char *const buffer)
 
 	size_t size = 0;
 	char32_t character = uni_scan_char(loc->io);
-	while (character != '\n' && character != (char32_t)EOF)
+	while (character != '\n' && character != (char32_t)EOF && size < MAX_CODE)
 	{
 		size += utf8_to_string(&buffer[size], character);
 		character = uni_scan_char(loc->io);
diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index feef1c3..2146ef6 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -17,6 +17,7 @@
 #include "logger.h"
 #include <stdio.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 #include "utf8.h"
 
@@ -241,37 +242,48 @@ static inline size_t length(const char *const line, const size_t size, const siz
 	return symbol >= size ? 0 : j == symbol ? 1 : j - symbol;
 }
 
-static void splice(char *const buffer, const char *const msg, const char *const line, const size_t symbol)
+static char *splice(const char *const msg, const char *const line, const size_t symbol)
 {
-	size_t cur = (size_t)sprintf(buffer, "%s\n", msg);
-
 	size_t size = 0;
 	while (line[size] != '\0' && line[size] != '\n')
 	{
-		cur += (size_t)sprintf(&buffer[cur], "%c", line[size]);
 		size++;
 	}
 
-	const size_t ch = literal(line, symbol);
+	const size_t ch = literal(line, symbol < size ? symbol : size);
 	const size_t len = length(line, size, ch);
-	if (len == 0)
+
+	const size_t msg_size = strlen(msg);
+	char *const buffer = malloc(msg_size + size + ch + len + 4);
+	if (buffer == NULL)
 	{
-		return;
+		return NULL;
 	}
 
+	size_t cur = 0;
+	memcpy(&buffer[cur], msg, msg_size);
+	cur += msg_size;
 	buffer[cur++] = '\n';
-	for (size_t i = 0; i < ch; i += utf8_symbol_size(line[i]))
-	{
-		buffer[cur++] = line[i] == '\t' ? '\t' : ' ';
-	}
+	memcpy(&buffer[cur], line, size);
+	cur += size;
 
-	buffer[cur++] = '^';
-	for (size_t i = 0; i < len - 1; i++)
+	if (len != 0)
 	{
-		buffer[cur++] = '~';
+		buffer[cur++] = '\n';
+		for (size_t i = 0; i < ch; i += utf8_symbol_size(line[i]))
+		{
+			buffer[cur++] = line[i] == '\t' ? '\t' : ' ';
+		}
+
+		buffer[cur++] = '^';
+		for (size_t i = 0; i < len - 1; i++)
+		{
+			buffer[cur++] = '~';
+		}
 	}
 
-	buffer[cur++] = '\0';
+	buffer[cur] = '\0';
+	return buffer;
 }
 
 
@@ -288,10 +300,9 @@ static inline void log_main(const logger func, const char *const tag, const char
 		return;
 	}
 
-	char buffer[MAX_MSG_SIZE];
-	splice(buffer, msg, line, symbol);
-
-	func(tag, buffer);
+	char *const buffer = splice(msg, line, symbol);
+	func(tag, buffer != NULL ? buffer : msg);
+	free(buffer);
 }
 
 static inline void log_auto(const logger func, location *const loc, const char *const msg)
@@ -309,10 +320,7 @@ static inline void log_auto(const logger func, location *const loc, const char *
 		return;
 	}
 
-	char buffer[MAX_MSG_SIZE];
-	splice(buffer, msg, line, loc_get_index(loc));
-
-	func(tag, buffer);
+	log_main(func, tag, msg, line, loc_get_index(loc));
 }
 
 
-- 
2.43.0


From b2f4c12d43d2a822ed4b04b1be43a842292bcf7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:04:48 +0000
Subject: [PATCH 42/95] fix: messages without a code line or file mark are
 printed

---
 libs/utils/logger.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index 2146ef6..b56aed9 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -47,7 +47,6 @@ static const char *const TAG_NOTE = "примечание";
 
 static const char *const ERROR_LOGGER_ARG_NULL = "NULL указатель на строку";
 static const char *const ERROR_LOGGER_ARG_MULTILINE  = "многострочный входной параметр";
-static const char *const ERROR_LOGGER_NO_LOCATION  = "позиционирование невозможно";
 
 
 static void default_error_log(const char *const tag, const char *const msg);
@@ -314,10 +313,14 @@ static inline void log_auto(const logger func, location *const loc, const char *
 
 	char tag[MAX_MSG_SIZE];
 	char line[MAX_MSG_SIZE];
-	if (!loc_get_tag(loc, tag) || !loc_get_code_line(loc, line))
+	if (!loc_get_tag(loc, tag))
 	{
-		current_error_log(TAG_LOGGER, ERROR_LOGGER_NO_LOCATION);
-		return;
+		strcpy(tag, TAG_LOGGER);
+	}
+
+	if (!loc_get_code_line(loc, line))
+	{
+		line[0] = '\0';
 	}
 
 	log_main(func, tag, msg, line, loc_get_index(loc));
-- 
2.43.0


From 9ac01879ffd30e0c1cb5ddb1b0313048cc71d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 43/95] fix: logical operators in arguments of LLVM calls

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a0a3eaa..2bd9f87 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1021,7 +1021,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 
 	for (size_t i = 0; i < args; i++)
 	{
-		info->variable_location = LFREE;
+		info->variable_location = LNOLOG;
 		const node argument = expression_call_get_argument(nd, i);
 		arguments_value_type[i] = expression_get_type(&argument);
 		if (!type_is_function(info->sx, arguments_value_type[i]))
-- 
2.43.0


From 7207ac064ece96c83ce00a672f8b2c2608305c71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:47:54 +0000
Subject: [PATCH 44/95] fix: structures with many members do not overflow a
 buffer

---
 libs/compiler/syntax.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 0900191..ec0ad90 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -715,25 +715,28 @@ item_t type_array_get_element_type(const syntax *const sx, const item_t type)
 
 item_t type_structure(syntax *const sx, vector *const types, vector *const names)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
-
 	const size_t members = vector_size(types);
+	vector local_modetab = vector_create(3 + members * 2);
+	vector_increase(&local_modetab, 3);
+
 	item_t displ = 0;
 	for (size_t i = 0; i < members; i++)
 	{
 		const item_t type = vector_get(types, i);
 		const item_t name = vector_get(names, i);
 
-		local_modetab[local_md++] = type;
-		local_modetab[local_md++] = name;
+		vector_add(&local_modetab, type);
+		vector_add(&local_modetab, name);
 		displ += type_size(sx, type);
 	}
 
-	local_modetab[0] = TYPE_STRUCTURE;
-	local_modetab[1] = (item_t)displ;
-	local_modetab[2] = (item_t)members * 2;
-	return type_add(sx, local_modetab, local_md);
+	vector_set(&local_modetab, 0, TYPE_STRUCTURE);
+	vector_set(&local_modetab, 1, (item_t)displ);
+	vector_set(&local_modetab, 2, (item_t)members * 2);
+
+	const item_t type = type_add(sx, local_modetab.array, vector_size(&local_modetab));
+	vector_clear(&local_modetab);
+	return type;
 }
 
 size_t type_structure_get_member_amount(const syntax *const sx, const item_t type)
-- 
2.43.0


From d458935d0bc096e1d106d7a150efb6628fdd1037 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:47:54 +0000
Subject: [PATCH 45/95] fix: unclosed structures and enumerations do not hang,
 many enumerators and parameters do not overflow

---
 libs/compiler/parser.c | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9b6f1a5..36305ac 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -990,11 +990,12 @@ static item_t parse_struct_declaration(parser *const prs, const node *const pare
 	node declaration = build_empty_struct_declaration(&prs->bld, name, struct_loc);
 
 	node_vector members = node_vector_create();
-	while (!try_consume_token(prs, TK_R_BRACE))
+	while (token_is_not(&prs->tk, TK_R_BRACE) && token_is_not(&prs->tk, TK_EOF))
 	{
 		const node member = parse_member_declaration(prs, &declaration);
 		node_vector_add(&members, &member);
 	}
+	expect_and_consume(prs, TK_R_BRACE, expected_r_brace);
 
 	const node result = build_struct_declaration(&prs->bld, &declaration, &members);
 
@@ -1070,9 +1071,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		return TYPE_UNDEFINED;
 	}
 
-	size_t local_md = 2;
 	item_t field_value = 0;
-	item_t local_modetab[100];
+	vector local_modetab = vector_create(2);
+	vector_increase(&local_modetab, 2);
 
 	const item_t type = type_add(prs->sx, (item_t[]){ TYPE_ENUM }, 1);
 
@@ -1082,6 +1083,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		{
 			parser_error(prs, wait_ident_after_comma_in_enum);
 			skip_until(prs, TK_SEMICOLON | TK_R_BRACE);
+			try_consume_token(prs, TK_R_BRACE);
+			vector_clear(&local_modetab);
+			return TYPE_UNDEFINED;
 		}
 
 		const size_t name = token_get_ident_name(&prs->tk);
@@ -1105,6 +1109,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
@@ -1114,8 +1119,8 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
 		}
 
-		local_modetab[local_md++] = field_value - 1;
-		local_modetab[local_md++] = (item_t)name;
+		vector_add(&local_modetab, field_value - 1);
+		vector_add(&local_modetab, (item_t)name);
 		if (token_is(&prs->tk, TK_R_BRACE))
 		{
 			continue;
@@ -1123,10 +1128,11 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		expect_and_consume(prs, TK_COMMA, no_comma_in_enum);
 	} while (!try_consume_token(prs, TK_R_BRACE));
 
-	local_modetab[1] = (item_t)(local_md - 2);
-	local_modetab[0] = local_modetab[2] / 2;
+	vector_set(&local_modetab, 1, (item_t)(vector_size(&local_modetab) - 2));
+	vector_set(&local_modetab, 0, vector_get(&local_modetab, 2) / 2);
 
-	type_enum_add_fields(prs->sx, local_modetab, local_md);
+	type_enum_add_fields(prs->sx, local_modetab.array, vector_size(&local_modetab));
+	vector_clear(&local_modetab);
 	return type;
 }
 
@@ -1869,8 +1875,8 @@ static node parse_statement(parser *const prs)
  */
 static item_t parse_function_declarator(parser *const prs, const int level, int func_def, const item_t return_type)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
+	vector local_modetab = vector_create(3);
+	vector_increase(&local_modetab, 3);
 	size_t args = 0;
 
 	if (try_consume_token(prs, TK_R_PAREN))
@@ -1914,6 +1920,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 				parser_error(prs, ident_in_declarator);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
 				try_consume_token(prs, TK_R_PAREN);
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 
@@ -1956,6 +1963,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 						else
 						{
 							parser_error(prs, two_idents_for_1_declarer);
+							vector_clear(&local_modetab);
 							return TYPE_UNDEFINED;
 						}
 						func_add(prs->sx, -((item_t)token_get_ident_name(&prs->tk)));
@@ -1964,6 +1972,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					else
 					{
 						parser_error(prs, ident_in_declarator);
+						vector_clear(&local_modetab);
 						return TYPE_UNDEFINED;
 					}
 				}
@@ -1999,28 +2008,32 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					skip_until(prs, TK_R_BRACE);
 					try_consume_token(prs, TK_R_BRACE);
 				}
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 			else if (func_def == 1 && !was_ident)
 			{
 				parser_error(prs, wait_definition);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 
 			args++;
-			local_modetab[local_md++] = type;
+			vector_add(&local_modetab, type);
 		} while (try_consume_token(prs, TK_COMMA));
 
 		expect_and_consume(prs, TK_R_PAREN, wrong_param_list);
 		prs->func_def = func_def;
 	}
 
-	local_modetab[0] = TYPE_FUNCTION;
-	local_modetab[1] = return_type;
-	local_modetab[2] = (item_t)args;
+	vector_set(&local_modetab, 0, TYPE_FUNCTION);
+	vector_set(&local_modetab, 1, return_type);
+	vector_set(&local_modetab, 2, (item_t)args);
 
-	return type_add(prs->sx, local_modetab, local_md);
+	const item_t type = type_add(prs->sx, local_modetab.array, vector_size(&local_modetab));
+	vector_clear(&local_modetab);
+	return type;
 }
 
 /**
-- 
2.43.0


From 6763bfd99baee9359317bd124e4c4eac8bddf836 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 46/95] fix: long names do not overflow the buffers of messages

---
 libs/compiler/errors.c |  6 +--
 libs/macro/error.c     | 92 +++++++++++++++++++++++++++++-------------
 2 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 53f6544..d9d18ed 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -310,7 +310,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 			sprintf(msg, "в каждой программе должна быть ГЛАВНАЯ функция");
 			break;
 		case predef_but_notdef: // need_test
-			sprintf(msg, "функция %s была предопределена, но не описана", va_arg(args, char *));
+			snprintf(msg, MAX_MSG_SIZE, "функция %s была предопределена, но не описана", va_arg(args, char *));
 			break;
 
 		// Other errors
@@ -340,10 +340,10 @@ static void get_error(const err_t num, char *const msg, va_list args)
 				"идентификаторов-параметров), а тут тело функции");
 			break;
 		case repeated_decl:	// test_exist
-			sprintf(msg, "повторное описание идентификатора %s", va_arg(args, char *));
+			snprintf(msg, MAX_MSG_SIZE, "повторное описание идентификатора %s", va_arg(args, char *));
 			break;
 		case ident_is_not_declared: // test_exist
-			sprintf(msg, "не описан идентификатор %s", va_arg(args, char *));
+			snprintf(msg, MAX_MSG_SIZE, "не описан идентификатор %s", va_arg(args, char *));
 			break;
 		case not_const_int_expr:
 			sprintf(msg, "должно быть константное выражение типа int");
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 55e6592..325f3d4 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -28,6 +28,7 @@
 
 #define MAX_TAG_SIZE	1024
 #define MAX_MSG_SIZE	4096
+#define MAX_TOKEN_END	(MAX_MSG_SIZE - 128)
 
 
 static size_t utf8_to_buffer(const char32_t *const src, char *const dest)
@@ -42,6 +43,40 @@ static size_t utf8_to_buffer(const char32_t *const src, char *const dest)
 }
 
 
+/** Copy the beginning of identifier or number without reading it from input */
+static size_t token_to_buffer(universal_io *const io, char *const buffer, const size_t size)
+{
+	const size_t begin = in_get_position(io);
+	char32_t character = uni_scan_char(io);
+
+	size_t end = begin;
+	if (utf8_is_digit(character))
+	{
+		double number = 0;
+		in_set_position(io, begin);
+		uni_scanf(io, "%lf", &number);
+		end = in_get_position(io);
+	}
+	else
+	{
+		while (utf8_is_letter(character) || utf8_is_digit(character))
+		{
+			end = in_get_position(io);
+			character = uni_scan_char(io);
+		}
+	}
+
+	in_set_position(io, begin);
+	size_t index = 0;
+	while (in_get_position(io) < end && index < size)
+	{
+		index += utf8_to_string(&buffer[index], uni_scan_char(io));
+	}
+
+	in_set_position(io, begin);
+	return index;
+}
+
 static void get_error(const error_t num, char *const msg, va_list args)
 {
 	switch (num)
@@ -67,7 +102,10 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const char32_t *const name = va_arg(args, char32_t *);
 
 			size_t index = sprintf(msg, "макрос " QUOTE);
-			index += utf8_to_buffer(name, &msg[index]);
+			for (size_t i = 0; name[i] != '\0' && index < MAX_TOKEN_END; i++)
+			{
+				index += utf8_to_string(&msg[index], name[i]);
+			}
 			sprintf(&msg[index], QUOTE " уже существует");
 		}
 		break;
@@ -94,31 +132,31 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case DIRECTIVE_NAME_NON:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "в директиве %s пропущено имя макроса", directive);
+			snprintf(msg, MAX_MSG_SIZE, "в директиве %s пропущено имя макроса", directive);
 		}
 		break;
 		case DIRECTIVE_INVALID:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "неизвестная директива препроцессора %s", directive);
+			snprintf(msg, MAX_MSG_SIZE, "неизвестная директива препроцессора %s", directive);
 		}
 		break;
 		case DIRECTIVE_FORBIDDEN:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "использование директивы %s внутри макроса запрещено", directive);
+			snprintf(msg, MAX_MSG_SIZE, "использование директивы %s внутри макроса запрещено", directive);
 		}
 		break;
 		case DIRECTIVE_UNTERMINATED:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "незавершённая директива %s", directive);
+			snprintf(msg, MAX_MSG_SIZE, "незавершённая директива %s", directive);
 		}
 		break;
 		case DIRECTIVE_NO_EXPRESSION:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "в директиве %s пропущено условие", directive);
+			snprintf(msg, MAX_MSG_SIZE, "в директиве %s пропущено условие", directive);
 		}
 		break;
 		case DIRECTIVE_WITHOUT:
@@ -143,14 +181,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case HASH_NOT_FOLLOWED:
 		{
 			const char *const hash = va_arg(args, char *);
-			sprintf(msg, "'%s' не сопровождается параметром макроса", hash);
+			snprintf(msg, MAX_MSG_SIZE, "'%s' не сопровождается параметром макроса", hash);
 		}
 		break;
 
 		case INCLUDE_EXPECTS_FILENAME:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "%s ожидает \"ИМЯФАЙЛА\" или <ИМЯФАЙЛА>", directive);
+			snprintf(msg, MAX_MSG_SIZE, "%s ожидает \"ИМЯФАЙЛА\" или <ИМЯФАЙЛА>", directive);
 		}
 		break;
 		case INCLUDE_NO_SUCH_FILE:
@@ -163,7 +201,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_DUPLICATE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "дублирующий макро параметр " QUOTE "%s" QUOTE, name);
+			snprintf(msg, MAX_MSG_SIZE, "дублирующий макро параметр " QUOTE "%s" QUOTE, name);
 		}
 		break;
 		case ARGS_EXPECTED_NAME:
@@ -173,10 +211,8 @@ static void get_error(const error_t num, char *const msg, va_list args)
 
 			size_t index = sprintf(msg, "ожидалось имя параметра, найдено " QUOTE);
 
-			const size_t position = in_get_position(io);
-			index += utf8_is_digit(character) ? uni_scan_number(io, &msg[index])
+			index += utf8_is_digit(character) ? token_to_buffer(io, &msg[index], MAX_TOKEN_END - index)
 					: utf8_to_string(&msg[index], character);
-			in_set_position(io, position);
 
 			sprintf(&msg[index], QUOTE);
 		}
@@ -188,11 +224,9 @@ static void get_error(const error_t num, char *const msg, va_list args)
 
 			size_t index = sprintf(msg, "ожидалась ',' или ')', найдено " QUOTE);
 
-			const size_t position = in_get_position(io);
-			index += utf8_is_letter(character) ? uni_scan_identifier(io, &msg[index])
-					: utf8_is_digit(character) ? uni_scan_number(io, &msg[index])
-						: utf8_to_string(&msg[index], character);
-			in_set_position(io, position);
+			index += utf8_is_letter(character) || utf8_is_digit(character)
+					? token_to_buffer(io, &msg[index], MAX_TOKEN_END - index)
+					: utf8_to_string(&msg[index], character);
 
 			sprintf(&msg[index], QUOTE);
 		}
@@ -203,7 +237,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_UNTERMINATED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "незавершённый список аргументов, вызываемый макрос " QUOTE "%s" QUOTE, name);
+			snprintf(msg, MAX_MSG_SIZE, "незавершённый список аргументов, вызываемый макрос " QUOTE "%s" QUOTE, name);
 		}
 		break;
 		case ARGS_REQUIRES:
@@ -216,7 +250,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = expected % 10 == 0 || expected % 10 >= 5
 				|| (expected % 100 >= 11 && expected % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
+			snprintf(msg, MAX_MSG_SIZE, "макросу " QUOTE "%s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
 					, name, expected, one ? "" : many ? "ов" : "а"
 					, actual % 10 == 1 && actual % 100 != 11 ? "" : "о", actual);
 		}
@@ -231,14 +265,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = actual % 10 == 0 || actual % 10 >= 5
 				|| (actual % 100 >= 11 && actual % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
+			snprintf(msg, MAX_MSG_SIZE, "макросу " QUOTE "%s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
 					, name, one ? "" : "о", actual, one ? "" : many ? "ов" : "а", expected);
 		}
 		break;
 		case ARGS_NON:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " не передано аргументов", name);
+			snprintf(msg, MAX_MSG_SIZE, "макросу " QUOTE "%s" QUOTE " не передано аргументов", name);
 		}
 		break;
 
@@ -248,19 +282,19 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_INVALID_SUFFIX:
 		{
 			const char *const suffix = va_arg(args, char *);
-			sprintf(msg, "недопустимый суффикс " QUOTE "%s" QUOTE " в целочисленной константе", suffix);
+			snprintf(msg, MAX_MSG_SIZE, "недопустимый суффикс " QUOTE "%s" QUOTE " в целочисленной константе", suffix);
 		}
 		break;
 		case EXPR_INVALID_TOKEN:
 		{
 			const char *const token = va_arg(args, char *);
-			sprintf(msg, "недопустимый токен " QUOTE "%s" QUOTE " в выражении препроцессора", token);
+			snprintf(msg, MAX_MSG_SIZE, "недопустимый токен " QUOTE "%s" QUOTE " в выражении препроцессора", token);
 		}
 		break;
 		case EXPR_MISSING_BINARY:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "пропущен бинарный оператор перед токеном " QUOTE "%s" QUOTE, operator);
+			snprintf(msg, MAX_MSG_SIZE, "пропущен бинарный оператор перед токеном " QUOTE "%s" QUOTE, operator);
 		}
 		break;
 		case EXPR_MISSING_BRACKET:
@@ -278,13 +312,13 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_NO_LEFT_OPERAND:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "в операторе '%s' отсутствует левый операнд", operator);
+			snprintf(msg, MAX_MSG_SIZE, "в операторе '%s' отсутствует левый операнд", operator);
 		}
 		break;
 		case EXPR_NO_RIGHT_OPERAND:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
+			snprintf(msg, MAX_MSG_SIZE, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
 		case EXPR_DIVISION_BY_ZERO:
@@ -307,20 +341,20 @@ static void get_warning(const warning_t num, char *const msg, va_list args)
 		case MACRO_NAME_UNDEFINED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " не определён", name);
+			snprintf(msg, MAX_MSG_SIZE, "макрос " QUOTE "%s" QUOTE " не определён", name);
 		}
 		break;
 		case MACRO_NAME_REDEFINE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " уже существует", name);
+			snprintf(msg, MAX_MSG_SIZE, "макрос " QUOTE "%s" QUOTE " уже существует", name);
 		}
 		break;
 
 		case DIRECTIVE_EXTRA_TOKENS:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "дополнительные токены в конце директивы %s", directive);
+			snprintf(msg, MAX_MSG_SIZE, "дополнительные токены в конце директивы %s", directive);
 		}
 		break;
 		case DIRECTIVE_LINE_SKIPED:
-- 
2.43.0


From 3dccd332496fef02d657969d685e86cc57f82157 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 47/95] fix: too long names of headers do not overflow the
 buffer of a path

---
 libs/macro/linker.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index 3e89f65..e7faf15 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -28,9 +28,13 @@
 #endif
 
 
-static void linker_make_path(char *const buffer, const char *const name, const char *const path, const bool is_file)
+static bool linker_make_path(char *const buffer, const char *const name, const char *const path, const bool is_file)
 {
 	size_t index = 0;
+	if (strlen(name) + (path != NULL ? strlen(path) : 0) + 2 > MAX_ARG_SIZE)
+	{
+		return false;
+	}
 
 	if (path != NULL)
 	{
@@ -55,14 +59,13 @@ static void linker_make_path(char *const buffer, const char *const name, const c
 		index += name[i] == '\n' || (name[i] == '\\' && name[i + 1] != '\\') ? 0 : 1;
 	}
 	buffer[index] = '\0';
+	return true;
 }
 
 static inline size_t linker_internal_path(linker *const lk, const char *const file)
 {
 	char path[MAX_ARG_SIZE];
-	linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true);
-
-	if (access(path, F_OK) != -1)
+	if (linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true) && access(path, F_OK) != -1)
 	{
 		const size_t size = ws_get_files_num(lk->ws);
 		const size_t index = ws_add_file(lk->ws, path);
@@ -81,9 +84,7 @@ static inline size_t linker_external_path(linker *const lk, const char *const fi
 	char path[MAX_ARG_SIZE];
 	for (size_t i = 0; i < ws_get_dirs_num(lk->ws); i++)
 	{
-		linker_make_path(path, file, ws_get_dir(lk->ws, i), false);
-
-		if (access(path, F_OK) != -1)
+		if (linker_make_path(path, file, ws_get_dir(lk->ws, i), false) && access(path, F_OK) != -1)
 		{
 			const size_t size = ws_get_files_num(lk->ws);
 			const size_t index = ws_add_file(lk->ws, path);
-- 
2.43.0


From cc1cdc0cf20ed5a176a1ae208f8fc66cc450d24f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 48/95] fix: long names of macros in the command line do not
 overflow a buffer

---
 libs/macro/macro.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index e081b5d..e09e6fe 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -78,11 +78,16 @@ static inline int ws_parse(const workspace *const ws, storage *const stg)
 
 		if (flag[0] == '-' && flag[1] == 'D')
 		{
-			char32_t name[MAX_ARG_SIZE];
+			char32_t *const name = malloc((strlen(flag) + 1) * sizeof(char32_t));
+			if (name == NULL)
+			{
+				return -1;
+			}
 
 			const size_t index = ws_parse_name(&flag[2], name);
 			if (index == SIZE_MAX)
 			{
+				free(name);
 				return -1;
 			}
 
@@ -91,14 +96,18 @@ static inline int ws_parse(const workspace *const ws, storage *const stg)
 				if (storage_set_by_index(stg, storage_add_by_utf8(stg, name), &flag[2 + index]) == SIZE_MAX)
 				{
 					macro_system_error(NULL, MACRO_NAME_EXISTS, name);
+					free(name);
 					return -1;
 				}
 			}
 			else if (storage_add_by_utf8(stg, name) == SIZE_MAX)
 			{
 				macro_system_error(NULL, MACRO_NAME_EXISTS, name);
+				free(name);
 				return -1;
 			}
+
+			free(name);
 		}
 	}
 
-- 
2.43.0


From 3881f49582c30ec661b962b342cfe429d8f9d18a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 49/95] fix: bytes that begin no character do not hang the
 scanner

---
 libs/utils/uniscanner.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/utils/uniscanner.c b/libs/utils/uniscanner.c
index 66eaaa9..af0f2bf 100644
--- a/libs/utils/uniscanner.c
+++ b/libs/utils/uniscanner.c
@@ -20,6 +20,9 @@
 #include "utf8.h"
 
 
+static const char32_t SUBSTITUTE = '`';
+
+
 int uni_scanf(universal_io *const io, const char *const format, ...)
 {
 	if (!in_is_correct(io))
@@ -45,6 +48,7 @@ char32_t uni_scan_char(universal_io *const io)
 		return (char32_t)EOF;
 	}
 
+	const size_t position = in_get_position(io);
 	const size_t size = utf8_symbol_size(buffer[0]);
 	for (size_t i = 1; i < size; i++)
 	{
@@ -54,7 +58,15 @@ char32_t uni_scan_char(universal_io *const io)
 		}
 	}
 
-	return utf8_convert(buffer);
+	const char32_t character = utf8_convert(buffer);
+	if (utf8_size(character) == size)
+	{
+		return character;
+	}
+
+	// Байт, не являющийся началом символа, заменяется на символ такого же размера
+	in_set_position(io, position);
+	return SUBSTITUTE;
 }
 
 size_t uni_scan_number(universal_io *const io, char *const buffer)
-- 
2.43.0


From 541a79491213c498718ac747ecc6771cc717dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 50/95] fix: unclosed string literals and huge exponents do not
 hang the lexer

---
 libs/compiler/lexer.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 1bea075..831ea0e 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -20,6 +20,10 @@
 #include "uniscanner.h"
 
 
+/** Exponents beyond this limit overflow or underflow anyway */
+#define MAX_EXPONENT 100000
+
+
 /**
  *	Emit an error from lexer
  *
@@ -349,13 +353,16 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		while (utf8_is_digit(lxr->character))
 		{
-			power = power * 10 + utf8_to_number(lxr->character);
+			if (power < MAX_EXPONENT)
+			{
+				power = power * 10 + utf8_to_number(lxr->character);
+			}
 			scan(lxr);
 		}
 
 		if (is_integer)
 		{
-			for (int64_t i = 0; i < power; i++)
+			for (int64_t i = 0; i < power && int_value != 0; i++)
 			{
 				int_value *= 10;
 			}
@@ -465,7 +472,7 @@ static token lex_string_literal(lexer *const lxr)
 	while (lxr->character == '"')
 	{
 		scan(lxr);
-		while (lxr->character != '"' && lxr->character != '\n')
+		while (lxr->character != '"' && lxr->character != '\n' && lxr->character != (char32_t)EOF)
 		{
 			vector_add(&lxr->lexstr, get_next_string_elem(lxr));
 			scan(lxr);
-- 
2.43.0


From b3360a825faa12541e46a0983c3559e526044083 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 51/95] fix: columns of wrongly encoded lines do not hang
 messages

---
 libs/utils/locator.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 68da766..5cb2e04 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -462,10 +462,7 @@ size_t loc_get_index(location *const loc)
 	const size_t position = in_get_position(loc->io);
 	in_set_position(loc->io, loc->code);
 
-	for (size_t i = FIRST_SYMBOL; i < loc->symbol; i++)
-	{
-		uni_scan_char(loc->io);
-	}
+	for (size_t i = FIRST_SYMBOL; i < loc->symbol && uni_scan_char(loc->io) != (char32_t)EOF; i++);
 
 	const size_t index = in_get_position(loc->io) - loc->code;
 	in_set_position(loc->io, position);
-- 
2.43.0


From f4e3e91a7328875e2c72685a17afe9bf8334960d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:23:17 +0000
Subject: [PATCH 52/95] fix: many cases and long names of functions do not
 overflow buffers of the LLVM generator

---
 libs/compiler/llvmgen.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 2bd9f87..ed93be6 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -24,8 +24,8 @@
 
 #define MAX_FUNCTION_ARGS 128
 #define MAX_PRINTF_ARGS 128
-#define MAX_CASES 4096
-#define MAX_NAME 4096
+#define MAX_CASES 16
+#define MAX_TRANSLITERATION 4
 
 
 static const size_t HASH_TABLE_SIZE = 1024;
@@ -138,9 +138,10 @@ static void func_name_to_io(information *const info, const size_t func_ref)
 		return;
 	}
 
-	char modified_name[MAX_NAME];
+	char *const modified_name = malloc(strlen(name) * MAX_TRANSLITERATION + 1);
 	utf8_transliteration(name, modified_name);
 	uni_printf(info->sx->io, "%s", modified_name);
+	free(modified_name);
 }
 
 static void type_to_io(information *const info, const item_t type)
@@ -2859,7 +2860,7 @@ static void emit_case_statement(information *const info, const node *const nd)
  */
 static void emit_switch_statement(information *const info, const node *const nd)
 {
-	item_t case_values[MAX_CASES];
+	vector case_values = vector_create(MAX_CASES);
 
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
@@ -2879,7 +2880,7 @@ static void emit_switch_statement(information *const info, const node *const nd)
 				const node expr = statement_case_get_expression(&substmt);
 				emit_expression(info, &expr);
 
-				case_values[case_num] = info->answer_const;
+				vector_add(&case_values, info->answer_const);
 				case_num++;
 			}
 			else if (statement_get_class(&substmt) == STMT_DEFAULT)
@@ -2896,9 +2897,10 @@ static void emit_switch_statement(information *const info, const node *const nd)
 	{
 		uni_printf(info->sx->io, "  ");
 		type_to_io(info, expression_get_type(&condition));
-		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", case_values[i], info->label_switch - i);
+		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", vector_get(&case_values, i), info->label_switch - i);
 	}
 	uni_printf(info->sx->io, " ]\n");
+	vector_clear(&case_values);
 
 	info->label_break = info->label_switch - case_num - has_default;
 	if (statement_get_class(&body) == STMT_COMPOUND)
-- 
2.43.0


From 99e7e10ab455006c792c284e4edf38c6adc7d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 53/95] fix: numbers in the table of types are not taken for
 structures of the LLVM module

---
 libs/compiler/llvmgen.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index ed93be6..6490005 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3062,9 +3062,16 @@ static void architecture(const workspace *const ws, syntax *const sx)
 
 static void structs_declaration(information *const info)
 {
-	const size_t types = vector_size(&info->sx->types);
-	for (size_t i = 0; i < types; i++)
+	// Записи таблицы типов связаны в список, начиная с последней
+	vector types = vector_create(HASH_TABLE_SIZE);
+	for (item_t i = (item_t)info->sx->start_type; i > 0; i = vector_get(&info->sx->types, (size_t)i))
 	{
+		vector_add(&types, i + 1);
+	}
+
+	for (size_t k = vector_size(&types); k > 0; k--)
+	{
+		const size_t i = (size_t)vector_get(&types, k - 1);
 		if (type_is_structure(info->sx, (item_t)i))
 		{
 			uni_printf(info->sx->io, "%%struct_opt.%zu = type { ", i);
@@ -3090,6 +3097,8 @@ static void structs_declaration(information *const info)
 			uni_printf(info->sx->io, " }\n");
 		}
 	}
+
+	vector_clear(&types);
 	uni_printf(info->sx->io, " \n");
 }
 
-- 
2.43.0


From 6f8fe0f2b74fec51e753989244611ca11e7f1dce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 54/95] fix: variables and functions of large programs are not
 taken for types

---
 libs/compiler/syntax.c | 25 ++++++++++++++++++-------
 libs/compiler/syntax.h |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index ec0ad90..01d55fd 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -250,6 +250,7 @@ syntax sx_create(const workspace *const ws, universal_io *const io)
 	sx.string_literals = strings_create(STRINGS_SIZE);
 
 	sx.predef = vector_create(FUNCTIONS_SIZE);
+	sx.specifiers = vector_create(FUNCTIONS_SIZE);
 	sx.functions = vector_create(FUNCTIONS_SIZE);
 	vector_increase(&sx.functions, 2);
 
@@ -315,6 +316,7 @@ int sx_clear(syntax *const sx)
 	strings_clear(&sx->string_literals);
 
 	vector_clear(&sx->predef);
+	vector_clear(&sx->specifiers);
 	vector_clear(&sx->functions);
 
 	vector_clear(&sx->tree);
@@ -424,12 +426,7 @@ size_t ident_add(syntax *const sx, const size_t repr, const item_t kind, const i
 		ident_set_type(sx, last_id, 0);
 		ident_set_displ(sx, last_id, 0);
 	}
-	else if (kind >= 1000)
-	{
-		// Это описание типа, а (type-1000) – это номер инициирующей процедуры
-		ident_set_displ(sx, last_id, kind);
-	}
-	else if (kind > 1 && type < 1000)
+	else if (type_is_function(sx, type))
 	{
 		// Это функция, и в поле displ находится её номер
 		ident_set_displ(sx, last_id, kind);
@@ -452,6 +449,12 @@ size_t ident_add(syntax *const sx, const size_t repr, const item_t kind, const i
 			}
 		}
 	}
+	else
+	{
+		// Это описание типа, а (type-1000) – это номер инициирующей процедуры
+		ident_set_displ(sx, last_id, kind);
+		vector_add(&sx->specifiers, (item_t)last_id);
+	}
 	return last_id;
 }
 
@@ -497,7 +500,15 @@ int ident_set_displ(syntax *const sx, const size_t index, const item_t displ)
 
 bool ident_is_type_specifier(syntax *const sx, const size_t index)
 {
-	return ident_get_displ(sx, index) >= 1000;
+	for (size_t i = 0; i < vector_size(&sx->specifiers); i++)
+	{
+		if ((size_t)vector_get(&sx->specifiers, i) == index)
+		{
+			return true;
+		}
+	}
+
+	return false;
 }
 
 bool ident_is_local(const syntax *const sx, const size_t index)
diff --git a/libs/compiler/syntax.h b/libs/compiler/syntax.h
index 6a80122..e9e98af 100644
--- a/libs/compiler/syntax.h
+++ b/libs/compiler/syntax.h
@@ -68,6 +68,7 @@ typedef struct syntax
 	strings string_literals;	/**< String literals list */
 
 	vector predef;				/**< Predefined functions table */
+	vector specifiers;			/**< Type specifiers in identifiers table */
 	vector functions;			/**< Functions table */
 
 	vector tree;				/**< Tree table */
-- 
2.43.0


From f41a724192627afb34c55dff8e70472d3de6e397 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 55/95] fix: the LLVM generator starts from a defined state

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 6490005..8c37877 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3237,7 +3237,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 		return -1;
 	}
 
-	information info;
+	information info = { 0 };
 	info.sx = sx;
 	info.register_num = 1;
 	info.label_num = 1;
-- 
2.43.0


From 66efef7ee7dcac7bbcd37e810884443c62fac603 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 56/95] fix: -Wno suppresses the warnings of the compiler too

---
 libs/compiler/lexer.c    | 21 ++++++++++++++++++++-
 libs/compiler/reporter.c |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 831ea0e..99349c6 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -43,6 +43,25 @@ static void lexer_error(lexer *const lxr, err_t num, ...)
 	va_end(args);
 }
 
+/**
+ *	Emit a warning from lexer
+ *
+ *	@param	lxr			Lexer
+ *	@param	num			Warning code
+ */
+static void lexer_warning(lexer *const lxr, warning_t num, ...)
+{
+	const size_t position = in_get_position(lxr->sx->io);
+	const location loc = { position, position + 1 };
+
+	va_list args;
+	va_start(args, num);
+
+	report_warning(&lxr->sx->rprt, lxr->sx->io, loc, num, args);
+
+	va_end(args);
+}
+
 /**
  *	Scan next character from io
  *
@@ -382,7 +401,7 @@ static token lex_numeric_literal(lexer *const lxr)
 		if (!is_in_range)
 		{
 			// Вышли за пределы целого - конвертируем в double
-			warning(lxr->sx->io, too_long_int);
+			lexer_warning(lxr, too_long_int);
 		}
 
 		return token_float_literal((location){ loc_begin, loc_end }, float_value);
diff --git a/libs/compiler/reporter.c b/libs/compiler/reporter.c
index 4f8c828..1d3a3d9 100644
--- a/libs/compiler/reporter.c
+++ b/libs/compiler/reporter.c
@@ -51,7 +51,7 @@ void report_error(reporter *const rprt, universal_io *const io, const location l
 
 void report_warning(reporter *const rprt, universal_io *const io, const location loc, const warning_t num, va_list args)
 {
-	if (rprt->is_recovery_disabled && rprt->errors != 0)
+	if (rprt->is_recovery_disabled)
 	{
 		return;
 	}
-- 
2.43.0


From e9dfbcbb78321aa29819e45dad9c99b80276c716 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 57/95] fix: only the last bound of an array is deduced, for
 every target

---
 libs/compiler/builder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 8455f08..28506b4 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1243,6 +1243,10 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 		if (expression_get_class(&bound) == EXPR_EMPTY_BOUND)
 		{
 			has_empty_bounds = true;
+			if (i + 1 != bounds_amount)
+			{
+				semantic_error(bldr, node_get_location(&bound), empty_init);
+			}
 		}
 	}
 
-- 
2.43.0


From fa5d4c202677237240cfb10f7bd3403d27ca1239 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 58/95] fix: functions are not printed

---
 libs/compiler/builder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 28506b4..5177cce 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -363,7 +363,8 @@ static node build_print_expression(builder *const bldr, node *const callee, node
 	for (size_t i = 0; i < argc; i++)
 	{
 		const node argument = node_vector_get(args, i);
-		if (type_is_pointer(bldr->sx, expression_get_type(&argument)))
+		const item_t argument_type = expression_get_type(&argument);
+		if (type_is_pointer(bldr->sx, argument_type) || type_is_function(bldr->sx, argument_type))
 		{
 			semantic_error(bldr, node_get_location(&argument), pointer_in_print);
 			return node_broken();
-- 
2.43.0


From 73da6397de17841b0e5da195c891f0271b34a596 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 59/95] fix: main is not taken for a variable in expressions

---
 libs/compiler/builder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 5177cce..d9d2bd8 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -566,7 +566,8 @@ node build_identifier_expression(builder *const bldr, const size_t name, const l
 {
 	const item_t identifier = repr_get_reference(bldr->sx, name);
 
-	if (identifier == ITEM_MAX)
+	// Нулевая ссылка -- это main, использовать её в выражениях нельзя
+	if (identifier == ITEM_MAX || identifier == 0)
 	{
 		semantic_error(bldr, loc, use_of_undeclared_identifier, repr_get_name(bldr->sx, name));
 		return node_broken();
-- 
2.43.0


From a32f075347820675ec4f4d3b482bffa3b45f461d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 60/95] fix: constant expressions are folded in 32 bits

---
 libs/compiler/builder.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index d9d2bd8..5ce08e1 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -72,6 +72,21 @@ static item_t usual_arithmetic_conversions(const syntax *const sx, node *const L
 	return TYPE_INTEGER;
 }
 
+/**
+ *	Build integer literal expression from the result of constant folding.
+ *	Integers of the language are 32-bit, so the result wraps around in the same way as at run time.
+ *
+ *	@param	bldr		AST Builder
+ *	@param	value		Result of operation
+ *	@param	loc			Expression location
+ *
+ *	@return	Integer literal node
+ */
+static node build_folded_integer_expression(builder *const bldr, const item_t value, const location loc)
+{
+	return build_integer_literal_expression(bldr, (int32_t)value, loc);
+}
+
 static node fold_unary_expression(builder *const bldr, const item_t type, const category_t ctg
 	, node *const expr, const unary_t op, const location loc)
 {
@@ -102,13 +117,13 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 			switch (op)
 			{
 				case UN_MINUS:
-					return build_integer_literal_expression(bldr, -value, loc);
+					return build_folded_integer_expression(bldr, -value, loc);
 				case UN_NOT:
-					return build_integer_literal_expression(bldr, ~value, loc);
+					return build_folded_integer_expression(bldr, ~value, loc);
 				case UN_LOGNOT:
 					return build_boolean_literal_expression(bldr, value == 0, loc);
 				case UN_ABS:
-					return build_integer_literal_expression(bldr, value >= 0 ? value : -value, loc);
+					return build_folded_integer_expression(bldr, value >= 0 ? value : -value, loc);
 				default:
 					return node_broken();
 			}
@@ -162,19 +177,19 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 			switch (op)
 			{
 				case BIN_MUL:
-					return build_integer_literal_expression(bldr, left_value * right_value, loc);
+					return build_folded_integer_expression(bldr, left_value * right_value, loc);
 				case BIN_DIV:
-					return build_integer_literal_expression(bldr, left_value / right_value, loc);
+					return build_folded_integer_expression(bldr, left_value / right_value, loc);
 				case BIN_REM:
-					return build_integer_literal_expression(bldr, left_value % right_value, loc);
+					return build_folded_integer_expression(bldr, left_value % right_value, loc);
 				case BIN_ADD:
-					return build_integer_literal_expression(bldr, left_value + right_value, loc);
+					return build_folded_integer_expression(bldr, left_value + right_value, loc);
 				case BIN_SUB:
-					return build_integer_literal_expression(bldr, left_value - right_value, loc);
+					return build_folded_integer_expression(bldr, left_value - right_value, loc);
 				case BIN_SHL:
-					return build_integer_literal_expression(bldr, left_value << right_value, loc);
+					return build_folded_integer_expression(bldr, left_value << right_value, loc);
 				case BIN_SHR:
-					return build_integer_literal_expression(bldr, left_value >> right_value, loc);
+					return build_folded_integer_expression(bldr, left_value >> right_value, loc);
 				case BIN_LT:
 					return build_boolean_literal_expression(bldr, left_value < right_value, loc);
 				case BIN_GT:
@@ -188,11 +203,11 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 				case BIN_NE:
 					return build_boolean_literal_expression(bldr, left_value != right_value, loc);
 				case BIN_AND:
-					return build_integer_literal_expression(bldr, left_value & right_value, loc);
+					return build_folded_integer_expression(bldr, left_value & right_value, loc);
 				case BIN_XOR:
-					return build_integer_literal_expression(bldr, left_value ^ right_value, loc);
+					return build_folded_integer_expression(bldr, left_value ^ right_value, loc);
 				case BIN_OR:
-					return build_integer_literal_expression(bldr, left_value | right_value, loc);
+					return build_folded_integer_expression(bldr, left_value | right_value, loc);
 				case BIN_LOG_AND:
 					return build_boolean_literal_expression(bldr, left_value && right_value, loc);
 				case BIN_LOG_OR:
-- 
2.43.0


From 399baff2ed85dc3e9ea04c140379564787c88577 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:06:46 +0000
Subject: [PATCH 61/95] fix: floating literals are the nearest values, long
 ones do not lose digits

---
 libs/compiler/lexer.c | 75 ++++++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 23 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 99349c6..75f8e9e 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -15,7 +15,7 @@
  */
 
 #include "lexer.h"
-#include <math.h>
+#include <stdlib.h>
 #include <string.h>
 #include "uniscanner.h"
 
@@ -211,6 +211,34 @@ static void skip_separators(lexer *const lxr)
 	}
 }
 
+/**
+ *	Convert collected text of decimal literal to the nearest floating value
+ *
+ *	@param	lxr			Lexer
+ *
+ *	@return	Floating value
+ */
+static double get_floating_value(lexer *const lxr)
+{
+	const size_t size = vector_size(&lxr->lexstr);
+	char *const buffer = malloc(size + 1);
+	double value = 0.0;
+
+	if (buffer != NULL)
+	{
+		for (size_t i = 0; i < size; i++)
+		{
+			buffer[i] = (char)vector_get(&lxr->lexstr, i);
+		}
+
+		buffer[size] = '\0';
+		value = strtod(buffer, NULL);
+		free(buffer);
+	}
+
+	return value;
+}
+
 /**
  *	Lex numeric literal
  *
@@ -267,6 +295,7 @@ static token lex_numeric_literal(lexer *const lxr)
 	double float_value = 0.0;
 	bool is_in_range = true;
 	bool is_integer = true;
+	vector_resize(&lxr->lexstr, 0);
 
 	while (utf8_is_hexa_digit(lxr->character))
 	{
@@ -291,9 +320,10 @@ static token lex_numeric_literal(lexer *const lxr)
 			return token_int_literal((location){ loc_begin, loc_end }, int_value);
 		}
 
-		if ((base == 2 && int_value >= 0x8000000000000000)
+		if (is_integer
+			&& ((base == 2 && int_value >= 0x8000000000000000)
 			|| (base == 8 && int_value >= 0x2000000000000000)
-			|| (int_value >= 0x1000000000000000))
+			|| (int_value >= 0x1000000000000000)))
 		{
 			// Переполнение хранилища - конвертируем в double
 			float_value = (double)int_value;
@@ -310,25 +340,20 @@ static token lex_numeric_literal(lexer *const lxr)
 			float_value = float_value * base + digit;
 		}
 
+		vector_add(&lxr->lexstr, '0' + digit);
 		scan(lxr);
 	}
 
 	// Дробная часть разрешена только для чисел без спецификаторов
 	if (lxr->character == '.' && !was_modifier)
 	{
-		if (is_integer)
-		{
-			float_value = (double)int_value;
-		}
-
 		is_integer = false;
-		double position_mult = 0.1;
+		vector_add(&lxr->lexstr, '.');
 		// Читаем только десятичные цифры
 		// Все остальное относится к следюущим токенам
 		while (utf8_is_digit(scan(lxr)))
 		{
-			float_value += utf8_to_number(lxr->character) * position_mult;
-			position_mult *= 0.1;
+			vector_add(&lxr->lexstr, '0' + utf8_to_number(lxr->character));
 		}
 	}
 
@@ -336,19 +361,14 @@ static token lex_numeric_literal(lexer *const lxr)
 	if (utf8_is_power(lxr->character) && !was_modifier)
 	{
 		int64_t power = 0;	// Показатель степени
-		int sign = 1;		// Знак степени
+		vector_add(&lxr->lexstr, 'e');
 		scan(lxr);
 
 		if (lxr->character == '-')
 		{
-			if (is_integer)
-			{
-				float_value = (double)int_value;
-			}
-
 			is_integer = false;
+			vector_add(&lxr->lexstr, '-');
 			scan(lxr);
-			sign = -1;
 		}
 		else if (lxr->character == '+')
 		{
@@ -376,18 +396,21 @@ static token lex_numeric_literal(lexer *const lxr)
 			{
 				power = power * 10 + utf8_to_number(lxr->character);
 			}
+
+			vector_add(&lxr->lexstr, '0' + utf8_to_number(lxr->character));
 			scan(lxr);
 		}
 
-		if (is_integer)
+		for (int64_t i = 0; is_integer && i < power && int_value != 0; i++)
 		{
-			for (int64_t i = 0; i < power && int_value != 0; i++)
+			int_value *= 10;
+			if (int_value >= 0x1000000000000000)
 			{
-				int_value *= 10;
+				// Переполнение хранилища - конвертируем в double
+				is_in_range = false;
+				is_integer = false;
 			}
 		}
-
-		float_value *= pow(10.0, sign * (double)power);
 	}
 
 	// Формируем результат
@@ -398,6 +421,11 @@ static token lex_numeric_literal(lexer *const lxr)
 	}
 	else
 	{
+		if (base == 10)
+		{
+			float_value = get_floating_value(lxr);
+		}
+
 		if (!is_in_range)
 		{
 			// Вышли за пределы целого - конвертируем в double
@@ -487,6 +515,7 @@ static token lex_string_literal(lexer *const lxr)
 {
 	assert(lxr->character == '"');
 	const size_t loc_begin = in_get_position(lxr->sx->io);
+	vector_resize(&lxr->lexstr, 0);
 
 	while (lxr->character == '"')
 	{
-- 
2.43.0


From e4790ed6f48b14b293eb74640ceeaadcc441d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:07:07 +0000
Subject: [PATCH 62/95] fix: numbers without digits are refused

---
 libs/compiler/lexer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 75f8e9e..0ada532 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -290,6 +290,12 @@ static token lex_numeric_literal(lexer *const lxr)
 		}
 	}
 
+	if (was_modifier && !utf8_is_hexa_digit(lxr->character))
+	{
+		// Ошибка - после модификатора счисления должны быть цифры
+		lexer_error(lxr, digit_of_another_base);
+	}
+
 	// Переменные для подсчета значения
 	uint64_t int_value = 0;
 	double float_value = 0.0;
-- 
2.43.0


From 02c597d55d0a4c5a981dc7021b596adc81e1d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:10:07 +0000
Subject: [PATCH 63/95] fix: integer literals beyond 64 bits are floating for
 every base

---
 libs/compiler/lexer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 0ada532..f224810 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -326,10 +326,7 @@ static token lex_numeric_literal(lexer *const lxr)
 			return token_int_literal((location){ loc_begin, loc_end }, int_value);
 		}
 
-		if (is_integer
-			&& ((base == 2 && int_value >= 0x8000000000000000)
-			|| (base == 8 && int_value >= 0x2000000000000000)
-			|| (int_value >= 0x1000000000000000)))
+		if (is_integer && int_value > ((uint64_t)INT64_MAX - digit) / base)
 		{
 			// Переполнение хранилища - конвертируем в double
 			float_value = (double)int_value;
@@ -409,13 +406,14 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		for (int64_t i = 0; is_integer && i < power && int_value != 0; i++)
 		{
-			int_value *= 10;
-			if (int_value >= 0x1000000000000000)
+			if (int_value > INT64_MAX / 10)
 			{
 				// Переполнение хранилища - конвертируем в double
 				is_in_range = false;
 				is_integer = false;
 			}
+
+			int_value *= 10;
 		}
 	}
 
-- 
2.43.0


From 6e98d72731d19631c5eff84d0df46a930835907a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 64/95] fix: messages do not print arguments that were not
 given

---
 libs/compiler/builder.c | 2 +-
 libs/compiler/errors.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 5ce08e1..a87d573 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -329,7 +329,7 @@ static node build_printf_expression(builder *const bldr, node *const callee, nod
 
 	if (argc >= MAX_PRINTF_ARGS)
 	{
-		semantic_error(bldr, r_loc, too_many_printf_args);
+		semantic_error(bldr, r_loc, too_many_printf_args, (size_t)MAX_PRINTF_ARGS);
 		return node_broken();
 	}
 
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index d9d18ed..27a83f2 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -432,7 +432,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 
 		// Tree testing errors
 		case node_unexpected:
-			sprintf(msg, "недопустимый узел верхнего уровня %i", va_arg(args, int));
+			sprintf(msg, "недопустимый узел верхнего уровня");
 			break;
 
 		// Codegen errors
-- 
2.43.0


From 04054000503c5fcf87bbe0a1efc8ada681e2110a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 65/95] fix: as many values may be printed at once as the
 message says

---
 libs/compiler/builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index a87d573..193bd4c 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -327,7 +327,7 @@ static node build_printf_expression(builder *const bldr, node *const callee, nod
 		return node_broken();
 	}
 
-	if (argc >= MAX_PRINTF_ARGS)
+	if (argc - 1 > MAX_PRINTF_ARGS)
 	{
 		semantic_error(bldr, r_loc, too_many_printf_args, (size_t)MAX_PRINTF_ARGS);
 		return node_broken();
-- 
2.43.0


From d2d340698526860798bf14f88443a242412d6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 66/95] fix: empty string literals are terminated

---
 libs/utils/strings.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 111d0cd..0f063d9 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -159,7 +159,12 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 		vec->all_strings_size += utf8_to_string(&vec->all_strings[vec->all_strings_size], ch);
 	}
 
-	vec->all_strings_size++;
+	if (strings_increase(vec, 1))
+	{
+		return SIZE_MAX;
+	}
+
+	vec->all_strings[vec->all_strings_size++] = '\0';
 	return vec->indexes_size++;
 }
 
-- 
2.43.0


From 033a9d47a69cd99fde7785e3628671e6f871f86e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 67/95] fix: constant pointers may be global

---
 libs/compiler/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 36305ac..f563838 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -2221,6 +2221,10 @@ static void parse_external_definition(parser *const prs, node *const root)
 		{
 			consume_token(prs);
 			type = type_pointer(prs->sx, group_type);
+			if (try_consume_token(prs, TK_CONST))
+			{
+				type = type_const(prs->sx, type);
+			}
 		}
 
 		if (token_is(&prs->tk, TK_IDENTIFIER))
-- 
2.43.0


From 82aa60b07be74bf4e54a387adfa7836848641ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 68/95] fix: constants and variables of one type may be
 compared and chosen between

---
 libs/compiler/builder.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 193bd4c..f7f4a17 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -72,6 +72,21 @@ static item_t usual_arithmetic_conversions(const syntax *const sx, node *const L
 	return TYPE_INTEGER;
 }
 
+/**
+ *	Check that types are compatible, i. e. that their unqualified versions are the same
+ *
+ *	@param	sx			Syntax structure
+ *	@param	first		First type
+ *	@param	second		Second type
+ *
+ *	@return	@c 1 on true, @c 0 on false
+ */
+static bool type_is_compatible(const syntax *const sx, const item_t first, const item_t second)
+{
+	return (type_is_const(sx, first) ? type_const_get_unqualified_type(sx, first) : first)
+		== (type_is_const(sx, second) ? type_const_get_unqualified_type(sx, second) : second);
+}
+
 /**
  *	Build integer literal expression from the result of constant folding.
  *	Integers of the language are 32-bit, so the result wraps around in the same way as at run time.
@@ -1010,7 +1025,7 @@ node build_binary_expression(builder *const bldr, node *const LHS, node *const R
 
 			if ((type_is_pointer(bldr->sx, left_type) && type_is_null_pointer(right_type))
 				|| (type_is_null_pointer(left_type) && type_is_pointer(bldr->sx, right_type))
-				|| left_type == right_type)
+				|| type_is_compatible(bldr->sx, left_type, right_type))
 			{
 				return fold_binary_expression(bldr, TYPE_BOOLEAN, LHS, RHS, op_kind, loc);
 			}
@@ -1114,12 +1129,16 @@ node build_ternary_expression(builder *const bldr, node *const cond, node *const
 		return expression_ternary(LHS_type, cond, LHS, RHS, loc);
 	}
 
-	if ((type_is_null_pointer(LHS_type) && type_is_pointer(bldr->sx, RHS_type))
-		|| (LHS_type == RHS_type))
+	if (type_is_null_pointer(LHS_type) && type_is_pointer(bldr->sx, RHS_type))
 	{
 		return expression_ternary(RHS_type, cond, LHS, RHS, loc);
 	}
 
+	if (type_is_compatible(bldr->sx, LHS_type, RHS_type))
+	{
+		return expression_ternary(type_is_const(bldr->sx, LHS_type) ? LHS_type : RHS_type, cond, LHS, RHS, loc);
+	}
+
 	semantic_error(bldr, op_loc, incompatible_cond_operands);
 	return node_broken();
 }
-- 
2.43.0


From 7bc93e4d9003434c36ce05b07e834a2d129417cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 69/95] fix: names are taken for types only where they are
 types

---
 libs/compiler/builder.c |  6 ++++++
 libs/compiler/parser.c  | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f7f4a17..670ea9f 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -603,6 +603,12 @@ node build_identifier_expression(builder *const bldr, const size_t name, const l
 		return node_broken();
 	}
 
+	if (ident_is_type_specifier(bldr->sx, (size_t)identifier))
+	{
+		semantic_error(bldr, loc, expected_expression);
+		return node_broken();
+	}
+
 	const item_t type = ident_get_type(bldr->sx, (size_t)identifier);
 	if (type_is_enum_field(bldr->sx, type))
 	{
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index f563838..d77e629 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1047,7 +1047,14 @@ static item_t parse_struct_specifier(parser *const prs, const node *const parent
 				return TYPE_UNDEFINED;
 			}
 
-			return ident_get_type(prs->sx, (size_t)id);
+			const item_t type = ident_get_type(prs->sx, (size_t)id);
+			if (!ident_is_type_specifier(prs->sx, (size_t)id) || !type_is_structure(prs->sx, type))
+			{
+				parser_error(prs, ident_not_type);
+				return TYPE_UNDEFINED;
+			}
+
+			return type;
 		}
 
 		default:
@@ -1167,7 +1174,15 @@ static item_t parse_enum_specifier(parser *const prs, const node *const parent)
 					parser_error(prs, ident_is_not_declared, repr_get_name(prs->sx, repr));
 					return TYPE_UNDEFINED;
 				}
-				return ident_get_type(prs->sx, (size_t)id);
+
+				const item_t type = ident_get_type(prs->sx, (size_t)id);
+				if (!ident_is_type_specifier(prs->sx, (size_t)id) || !type_is_enum(prs->sx, type))
+				{
+					parser_error(prs, ident_not_type);
+					return TYPE_UNDEFINED;
+				}
+
+				return type;
 			}
 		}
 
-- 
2.43.0


From 7705aee6141e68276239614bb72765cc711cbbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 70/95] fix: enumerations may be defined in blocks

---
 libs/compiler/builder.c | 5 +++--
 libs/compiler/builder.h | 3 ++-
 libs/compiler/parser.c  | 5 ++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 670ea9f..9ddea4b 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1339,10 +1339,11 @@ node build_empty_declaration(builder *const bldr)
 	return statement_declaration(&bldr->context);
 }
 
-node build_declaration(builder *const bldr, node *const declaration, node_vector *const declarators, const location loc)
+node build_declaration(builder *const bldr, node *const declaration, node_vector *const declarators
+	, const bool was_definition, const location loc)
 {
 	const size_t amount = node_vector_size(declarators);
-	if (amount == 0 && statement_declaration_get_size(declaration) == 0)
+	if (amount == 0 && !was_definition)
 	{
 		semantic_error(bldr, loc, declaration_does_not_declare_anything);
 	}
diff --git a/libs/compiler/builder.h b/libs/compiler/builder.h
index 4fe25b6..d0108ea 100644
--- a/libs/compiler/builder.h
+++ b/libs/compiler/builder.h
@@ -342,12 +342,13 @@ node build_empty_declaration(builder *const bldr);
  *	@param	bldr			AST builder
  *	@param	declaration		Existing declaration
  *	@param	declarators		Declarators
+ *	@param	was_definition	Set, if a structure or an enumeration is defined
  *	@param	semi_loc		Semicolon location
  *
  *	@return	Declaration
  */
 node build_declaration(builder *const bldr, node *const declaration
-	, node_vector *const declarators, const location semi_loc);
+	, node_vector *const declarators, const bool was_definition, const location semi_loc);
 
 
 /**
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index d77e629..224459c 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1288,7 +1288,10 @@ static node parse_declaration(parser *const prs)
 	node declaration = build_empty_declaration(&prs->bld);
 	const location start_loc = token_get_location(&prs->tk);
 
+	prs->was_type_def = false;
+	const bool is_typedef = token_is(&prs->tk, TK_TYPEDEF);
 	const item_t type = parse_type_specifier(prs, &declaration);
+	const bool was_definition = prs->was_type_def && !is_typedef;
 	node_vector declarators = node_vector_create();
 
 	if (token_is_not(&prs->tk, TK_SEMICOLON))
@@ -1304,7 +1307,7 @@ static node parse_declaration(parser *const prs)
 	expect_and_consume(prs, TK_SEMICOLON, expected_semi_after_decl);
 
 	const location loc = { start_loc.begin, end_loc.end };
-	const node result = build_declaration(&prs->bld, &declaration, &declarators, loc);
+	const node result = build_declaration(&prs->bld, &declaration, &declarators, was_definition, loc);
 	node_vector_clear(&declarators);
 
 	return result;
-- 
2.43.0


From 739fe4036df910cbf3939e03a92c8f94cdd049c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 71/95] fix: case values and default labels are not repeated in
 a switch

---
 libs/compiler/errors.c |  6 ++++++
 libs/compiler/errors.h |  2 ++
 libs/compiler/parser.c | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 27a83f2..0c4cd60 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -215,6 +215,12 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case case_expr_not_integer:
 			sprintf(msg, "выражение оператора 'случай' должно иметь целочисленный тип");
 			break;
+		case repeated_case:
+			sprintf(msg, "значение метки 'случай' повторяется в операторе 'выбор'");
+			break;
+		case repeated_default:
+			sprintf(msg, "метка 'умолчание' повторяется в операторе 'выбор'");
+			break;
 		case switch_expr_not_integer:
 			sprintf(msg, "выражение оператора 'выбор' должно иметь целочисленный тип");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index 5adec86..a1b0753 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -84,6 +84,8 @@ typedef enum ERROR
 	expected_identifier_in_declarator,		/**< Expected identifier in declarator */
 	declaration_does_not_declare_anything,	/**< Declaration does not declare anything */
 	case_expr_not_integer,					/**< Case expression is not an integer */
+	repeated_case,							/**< Case value is repeated in switch statement */
+	repeated_default,						/**< Default label is repeated in switch statement */
 	switch_expr_not_integer,				/**< Switch expression is not an integer */
 	void_func_valued_return,				/**< Void function should not return a value */
 	nonvoid_func_void_return,				/**< Non-void function should return a value */
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 224459c..9385ed9 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -45,6 +45,9 @@ typedef struct parser
 	bool is_in_switch;					/**< Set, if parser is in switch body */
 	bool is_in_loop;					/**< Set, if parser is in loop body */
 
+	vector cases;						/**< Values of case labels of the current switch */
+	bool was_default;					/**< Set, if current switch has a default label */
+
 	bool was_return;					/**< Set, if was return in parsed function */
 	bool was_type_def;					/**< Set, if was type definition */
 } parser;
@@ -81,6 +84,7 @@ static inline parser parser_create(syntax *const sx)
 
 	prs.is_in_loop = false;
 	prs.is_in_switch = false;
+	prs.was_default = false;
 
 	consume_token(&prs);
 
@@ -1388,6 +1392,21 @@ static node parse_case_statement(parser *const prs)
 		return node_broken();
 	}
 
+	if (type_is_integer(prs->sx, expression_get_type(&expr)))
+	{
+		const item_t value = expression_literal_get_integer(&expr);
+		for (size_t i = 0; i < vector_size(&prs->cases); i++)
+		{
+			if (vector_get(&prs->cases, i) == value)
+			{
+				parser_error(prs, repeated_case);
+				break;
+			}
+		}
+
+		vector_add(&prs->cases, value);
+	}
+
 	expect_and_consume(prs, TK_COLON, expected_colon_after_case);
 	node substmt = parse_statement(prs);
 
@@ -1416,6 +1435,12 @@ static node parse_default_statement(parser *const prs)
 		return node_broken();
 	}
 
+	if (prs->was_default)
+	{
+		parser_error(prs, repeated_default);
+	}
+
+	prs->was_default = true;
 	expect_and_consume(prs, TK_COLON, expected_colon_after_default);
 	node substmt = parse_statement(prs);
 
@@ -1550,8 +1575,18 @@ static node parse_switch_statement(parser *const prs)
 	node condition = parse_condition(prs);
 
 	const bool old_in_switch = prs->is_in_switch;
+	const bool old_was_default = prs->was_default;
+	const vector old_cases = prs->cases;
+
 	prs->is_in_switch = true;
+	prs->was_default = false;
+	prs->cases = vector_create(8);
+
 	node body = parse_statement(prs);
+
+	vector_clear(&prs->cases);
+	prs->cases = old_cases;
+	prs->was_default = old_was_default;
 	prs->is_in_switch = old_in_switch;
 
 	return build_switch_statement(&prs->bld, &condition, &body, switch_loc);
-- 
2.43.0


From 5c92da74dcc59f0d5f623457d1a1d3576f37d693 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 72/95] fix: character literals are folded in constant
 expressions

---
 libs/compiler/builder.c | 8 ++++++++
 libs/compiler/codegen.c | 2 +-
 libs/compiler/parser.c  | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 9ddea4b..68dc343 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -123,12 +123,19 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 			return build_boolean_literal_expression(bldr, !value, loc);
 		}
 
+		case TYPE_CHARACTER:
 		case TYPE_ENUM:
 		case TYPE_INTEGER:
 		{
 			const item_t value = expression_literal_get_integer(expr);
 			node_remove(expr);
 
+			if (type == TYPE_CHARACTER)
+			{
+				// Тип результата совпадает с типом операнда
+				return expression_integer_literal(&bldr->context, type, op == UN_MINUS || value < 0 ? -value : value, loc);
+			}
+
 			switch (op)
 			{
 				case UN_MINUS:
@@ -175,6 +182,7 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 
 	switch (type_get_class(bldr->sx, expression_get_type(LHS)))
 	{
+		case TYPE_CHARACTER:
 		case TYPE_ENUM:
 		case TYPE_INTEGER:
 		case TYPE_BOOLEAN:
diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 63eb759..39cbc25 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -656,7 +656,7 @@ static void emit_literal_expression(encoder *const enc, const node *const nd)
 			const char32_t value = expression_literal_get_character(nd);
 
 			mem_add(enc, IC_LI);
-			mem_add(enc, value);
+			mem_add(enc, (int32_t)value);
 			return;
 		}
 
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9385ed9..21838a6 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1117,7 +1117,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			field_value = expression_literal_get_integer(&expr);
 			node_remove(&expr);
 
-			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
+			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != TYPE_CHARACTER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
 				vector_clear(&local_modetab);
-- 
2.43.0


From 161283c2170fe738cc12bd93bc257fb7e7d0b369 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 73/95] fix: only a function may be the main function of a
 program

---
 libs/compiler/syntax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 01d55fd..9409033 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -288,7 +288,7 @@ bool sx_is_correct(syntax *const sx)
 	}
 
 	bool was_error = false;
-	if (sx->ref_main == 0)
+	if (sx->ref_main == 0 || !type_is_function(sx, ident_get_type(sx, sx->ref_main)))
 	{
 		system_error(no_main_in_program);
 		was_error = true;
-- 
2.43.0


From 703afc80ec531803dbc1be3113ea7723aba0e16c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 74/95] fix: constants may not be void

---
 libs/compiler/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 21838a6..49431c4 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -835,6 +835,11 @@ static item_t parse_type_specifier(parser *const prs, const node *const parent)
 						parser_error(prs, multiple_const_in_type);
 						return TYPE_UNDEFINED;
 					}
+					if (type_is_void(type))
+					{
+						parser_error(prs, only_functions_may_have_type_VOID);
+						return TYPE_UNDEFINED;
+					}
 					return type_const(prs->sx, type);
 				}
 			}
-- 
2.43.0


From 13b88619275313c2278d9b664f691332c7fad462 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 75/95] fix: a comma may follow the last element of an
 initializer

---
 libs/compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 49431c4..11df62f 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -394,7 +394,7 @@ static node_vector parse_initializer_list(parser *const prs)
 	{
 		const node initializer = parse_initializer(prs);
 		node_vector_add(&result, &initializer);
-	} while (try_consume_token(prs, TK_COMMA));
+	} while (try_consume_token(prs, TK_COMMA) && token_is_not(&prs->tk, TK_R_BRACE));
 
 	return result;
 }
-- 
2.43.0


From 841307183fd998e83767eb05fa7ba9e4954baefe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 76/95] fix: enumeration constants may be defined by those of
 another enumeration

---
 libs/compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 11df62f..4184251 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1122,7 +1122,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			field_value = expression_literal_get_integer(&expr);
 			node_remove(&expr);
 
-			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != TYPE_CHARACTER && type_expr != type))
+			if (field_value == INT_MAX || !type_is_integer(prs->sx, type_expr))
 			{
 				parser_error(prs, not_const_int_expr);
 				vector_clear(&local_modetab);
-- 
2.43.0


From 5ed7a32f6e0125466abff77041104b44b7877893 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 77/95] fix: members of a structure have different names

---
 libs/compiler/builder.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 68dc343..531dd58 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1240,8 +1240,18 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 		node member = node_vector_get(members, i);
 		if (node_is_correct(&member))
 		{
+			const item_t member_name = (item_t)declaration_member_get_name(&member);
+			for (size_t j = 0; j < vector_size(&names); j++)
+			{
+				if (vector_get(&names, j) == member_name)
+				{
+					semantic_error(bldr, node_get_location(&member), repeated_decl, repr_get_name(bldr->sx, (size_t)member_name));
+					break;
+				}
+			}
+
 			vector_add(&types, declaration_member_get_type(&member));
-			vector_add(&names, (item_t)declaration_member_get_name(&member));
+			vector_add(&names, member_name);
 
 			declaration_struct_add_declarator(declaration, &member);
 		}
-- 
2.43.0


From 2c4400f6785efd2f51c34573a180cc552f8b3223 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 78/95] fix: constant array bounds are greater than zero

---
 libs/compiler/builder.c | 28 ++++++++++++++++++++--------
 libs/compiler/errors.c  |  3 +++
 libs/compiler/errors.h  |  1 +
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 531dd58..db7a0c0 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1191,6 +1191,24 @@ node build_condition(builder *const bldr, node *const expr)
 	return *expr;
 }
 
+/**
+ *	Check that array bound is an integer expression, greater than zero if it is constant
+ *
+ *	@param	bldr		AST builder
+ *	@param	bound		Bound expression
+ */
+static void check_bound(builder *const bldr, const node *const bound)
+{
+	if (!type_is_integer(bldr->sx, expression_get_type(bound)))
+	{
+		semantic_error(bldr, node_get_location(bound), array_size_must_be_int);
+	}
+	else if (expression_get_class(bound) == EXPR_LITERAL && expression_literal_get_integer(bound) <= 0)
+	{
+		semantic_error(bldr, node_get_location(bound), array_size_must_be_positive);
+	}
+}
+
 node build_empty_bound_expression(builder *const bldr, const location loc)
 {
 	return expression_empty_bound(&bldr->context, loc);
@@ -1215,10 +1233,7 @@ node build_member_declaration(builder *const bldr, const item_t type, const size
 	{
 		const node bound = node_vector_get(bounds, i);
 		member_type = type_array(bldr->sx, member_type);
-		if (!type_is_integer(bldr->sx, expression_get_type(&bound)))
-		{
-			semantic_error(bldr, node_get_location(&bound), array_size_must_be_int);
-		}
+		check_bound(bldr, &bound);
 	}
 
 	return declaration_member(&bldr->context, member_type, name, bounds, loc);
@@ -1296,10 +1311,7 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 	{
 		const node bound = node_vector_get(bounds, i);
 		variable_type = type_array(bldr->sx, variable_type);
-		if (!type_is_integer(bldr->sx, expression_get_type(&bound)))
-		{
-			semantic_error(bldr, node_get_location(&bound), array_size_must_be_int);
-		}
+		check_bound(bldr, &bound);
 		if (expression_get_class(&bound) == EXPR_EMPTY_BOUND)
 		{
 			has_empty_bounds = true;
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 0c4cd60..8cd625c 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -402,6 +402,9 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case array_size_must_be_int:	// test_exist
 			sprintf(msg, "размер массива может иметь тип только ЦЕЛ или ЛИТЕРА");
 			break;
+		case array_size_must_be_positive:
+			sprintf(msg, "размер массива должен быть больше нуля");
+			break;
 		case no_semicolon_in_struct:	// need_test
 			sprintf(msg, "описание поля структуры должно заканчиваться ;");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index a1b0753..7a31fbc 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -148,6 +148,7 @@ typedef enum ERROR
 	wrong_struct,
 	pnt_before_array,
 	array_size_must_be_int,
+	array_size_must_be_positive,
 	no_semicolon_in_struct,
 	no_comma_in_enum,
 	wait_ident_after_semicolon_in_struct,
-- 
2.43.0


From ca2c5882fe782dea38abfe439a73f5978ca45fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 79/95] fix: initializer lists have as many elements as the
 array

---
 libs/compiler/builder.c | 35 ++++++++++++++++++++++++++++++++++-
 libs/compiler/errors.c  |  3 +++
 libs/compiler/errors.h  |  1 +
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index db7a0c0..17c5065 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1291,6 +1291,36 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 	return declaration_struct_set_location(declaration, loc);
 }
 
+/**
+ *	Check that initializer lists have as many elements as the constant bounds of array say
+ *
+ *	@param	bldr		AST builder
+ *	@param	bounds		Array bounds
+ *	@param	index		Index of the bound for this initializer
+ *	@param	initializer	Initializer
+ */
+static void check_initializer_size(builder *const bldr, const node_vector *const bounds, const size_t index, const node *const initializer)
+{
+	if (index == node_vector_size(bounds) || expression_get_class(initializer) != EXPR_INITIALIZER)
+	{
+		return;
+	}
+
+	const node bound = node_vector_get(bounds, index);
+	const size_t size = expression_initializer_get_size(initializer);
+	if (expression_get_class(&bound) == EXPR_LITERAL && expression_literal_get_integer(&bound) != (item_t)size)
+	{
+		semantic_error(bldr, node_get_location(initializer), wrong_init_size);
+		return;
+	}
+
+	for (size_t i = 0; i < size; i++)
+	{
+		const node subexpr = expression_initializer_get_subexpr(initializer, i);
+		check_initializer_size(bldr, bounds, index + 1, &subexpr);
+	}
+}
+
 node build_declarator(builder *const bldr, const item_t type, const size_t name
    , const bool was_star, const bool was_const, node_vector *const bounds, node *const initializer, const location ident_loc)
 {
@@ -1324,7 +1354,10 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 
 	if (initializer)
 	{
-		check_assignment_operands(bldr, variable_type, initializer, /*is_declaration:*/ true);
+		if (check_assignment_operands(bldr, variable_type, initializer, /*is_declaration:*/ true))
+		{
+			check_initializer_size(bldr, bounds, 0, initializer);
+		}
 	}
 	else if (has_empty_bounds)
 	{
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 8cd625c..5ac2f65 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -405,6 +405,9 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case array_size_must_be_positive:
 			sprintf(msg, "размер массива должен быть больше нуля");
 			break;
+		case wrong_init_size:
+			sprintf(msg, "число элементов инициализатора должно совпадать с размером массива");
+			break;
 		case no_semicolon_in_struct:	// need_test
 			sprintf(msg, "описание поля структуры должно заканчиваться ;");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index 7a31fbc..be3d6b2 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -149,6 +149,7 @@ typedef enum ERROR
 	pnt_before_array,
 	array_size_must_be_int,
 	array_size_must_be_positive,
+	wrong_init_size,
 	no_semicolon_in_struct,
 	no_comma_in_enum,
 	wait_ident_after_semicolon_in_struct,
-- 
2.43.0


From 502dcfd1d663b3319feb0ed4827f294c2a5a4835 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 80/95] fix: continue goes to the condition or the modification
 of its loop (LLVM)

---
 libs/compiler/llvmgen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 8c37877..5a4e7db 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2634,7 +2634,7 @@ static void emit_while_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
@@ -2672,12 +2672,13 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const size_t old_label_break = info->label_break;
 	const size_t old_label_continue = info->label_continue;
 	const size_t label_loop = info->label_num++;
+	const size_t label_condition = info->label_num++;
 	const size_t label_end = info->label_num++;
 
 	info->label_true = label_loop;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_loop;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_loop);
 	to_code_label(info, label_loop);
@@ -2685,6 +2686,9 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const node body = statement_do_get_body(nd);
 	emit_statement(info, &body);
 
+	to_code_unconditional_branch(info, label_condition);
+	to_code_label(info, label_condition);
+
 	info->variable_location = LFREE;
 	const node condition = statement_do_get_condition(nd);
 	emit_expression(info, &condition);
@@ -2720,7 +2724,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_incr;
 
 	if (statement_for_has_inition(nd))
 	{
-- 
2.43.0


From 02731c522a43f83b298310ec659578d1e4ca9157 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 81/95] fix: a loop without a condition does not modify before
 its first pass (LLVM)

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 5a4e7db..d62b779 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2745,7 +2745,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	}
 	else
 	{
-		to_code_unconditional_branch(info, label_incr);
+		to_code_unconditional_branch(info, label_body);
 	}
 
 	to_code_label(info, label_incr);
-- 
2.43.0


From 041787f600321f39340aaa0870cdde0135099016 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 82/95] fix: a condition that contains a call is branched upon
 (LLVM)

---
 libs/compiler/llvmgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index d62b779..3ef80eb 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1020,6 +1020,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 		func_reg = info->register_num++;
 	}
 
+	const location_t old_location = info->variable_location;
 	for (size_t i = 0; i < args; i++)
 	{
 		info->variable_location = LNOLOG;
@@ -1053,6 +1054,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 			arguments_double[i] = info->answer_const_double;
 		}
 	}
+	info->variable_location = old_location;
 
 	if (!type_is_void(func_type))
 	{
-- 
2.43.0


From 5b75aecc6e0a5e0ab6daf786cf4953756e5e3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 83/95] fix: return leaves main (LLVM)

---
 libs/compiler/llvmgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 3ef80eb..2d75f5b 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2794,6 +2794,7 @@ static void emit_return_statement(information *const info, const node *const nd)
 
 	if (info->is_main)
 	{
+		uni_printf(info->sx->io, " ret i32 0\n");
 		return;
 	}
 
-- 
2.43.0


From f2755211ebbb582cc9a3aa7d2dfbe416ae804a70 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:56 +0000
Subject: [PATCH 84/95] fix: labels of switch (LLVM): nested switches, adjacent
 cases, default before cases

---
 libs/compiler/llvmgen.c | 91 ++++++++++++++++++++++++++---------------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 2d75f5b..7e4eabd 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2554,16 +2554,7 @@ static void emit_compound_statement(information *const info, const node *const n
 		const node substmt = statement_compound_get_substmt(nd, i);
 		emit_statement(info, &substmt);
 
-		if ((statement_get_class(&substmt) == STMT_CASE || statement_get_class(&substmt) == STMT_DEFAULT)
-			&& i == size - 1)
-		{
-			if (!is_function_body)
-			{
-				to_code_stack_load(info, block_num);
-			}
-			to_code_unconditional_branch(info, info->label_switch);
-		}
-		else if (i == size - 1)
+		if (i == size - 1)
 		{
 			if (!is_function_body)
 			{
@@ -2835,9 +2826,9 @@ static void emit_return_statement(information *const info, const node *const nd)
  */
 static void emit_default_statement(information *const info, const node *const nd)
 {
-	to_code_unconditional_branch(info, info->label_switch);
-	to_code_label(info, info->label_switch);
-	info->label_switch--;
+	const size_t label = info->label_switch++;
+	to_code_unconditional_branch(info, label);
+	to_code_label(info, label);
 
 	const node substmt = statement_default_get_substmt(nd);
 	emit_statement(info, &substmt);
@@ -2851,9 +2842,9 @@ static void emit_default_statement(information *const info, const node *const nd
  */
 static void emit_case_statement(information *const info, const node *const nd)
 {
-	to_code_unconditional_branch(info, info->label_switch);
-	to_code_label(info, info->label_switch);
-	info->label_switch--;
+	const size_t label = info->label_switch++;
+	to_code_unconditional_branch(info, label);
+	to_code_label(info, label);
 
 	const node substmt = statement_case_get_substmt(nd);
 	emit_statement(info, &substmt);
@@ -2868,53 +2859,85 @@ static void emit_case_statement(information *const info, const node *const nd)
 static void emit_switch_statement(information *const info, const node *const nd)
 {
 	vector case_values = vector_create(MAX_CASES);
+	vector case_labels = vector_create(MAX_CASES);
 
+	info->variable_location = LREG;
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
 
+	const answer_t condition_kind = info->answer_kind;
+	const item_t condition_const = info->answer_const;
+	const size_t condition_reg = info->answer_reg;
+
+	const size_t old_label_switch = info->label_switch;
+	const size_t old_label_break = info->label_break;
+	const size_t label_begin = info->label_num;
+	size_t label_default = SIZE_MAX;
+
+	// Метки даются всем case и default в порядке их следования
 	const node body = statement_switch_get_body(nd);
-	size_t case_num = 0;
-	int has_default = 0;
 	if (statement_get_class(&body) == STMT_COMPOUND)
 	{
 		const size_t size = statement_compound_get_size(&body);
 		for (size_t i = 0; i < size; i++)
 		{
-			const node substmt = statement_compound_get_substmt(&body, i);
-
-			if (statement_get_class(&substmt) == STMT_CASE)
+			node substmt = statement_compound_get_substmt(&body, i);
+			while (statement_get_class(&substmt) == STMT_CASE || statement_get_class(&substmt) == STMT_DEFAULT)
 			{
-				const node expr = statement_case_get_expression(&substmt);
-				emit_expression(info, &expr);
+				const size_t label = info->label_num++;
+				if (statement_get_class(&substmt) == STMT_CASE)
+				{
+					const node expr = statement_case_get_expression(&substmt);
+					emit_expression(info, &expr);
 
-				vector_add(&case_values, info->answer_const);
-				case_num++;
+					vector_add(&case_values, info->answer_const);
+					vector_add(&case_labels, (item_t)label);
+					substmt = statement_case_get_substmt(&substmt);
+				}
+				else
+				{
+					label_default = label;
+					substmt = statement_default_get_substmt(&substmt);
+				}
 			}
-			else if (statement_get_class(&substmt) == STMT_DEFAULT)
-			{
-				has_default = 1;
-			}	
 		}
 	}
 
+	const size_t label_end = info->label_num++;
+
 	uni_printf(info->sx->io, " switch ");
 	type_to_io(info, expression_get_type(&condition));
-	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", info->answer_reg, info->label_switch - case_num - has_default);
-	for (size_t i = 0; i < case_num; i++)
+	if (condition_kind == ACONST)
+	{
+		uni_printf(info->sx->io, " %" PRIitem, condition_const);
+	}
+	else
+	{
+		uni_printf(info->sx->io, " %%.%zu", condition_reg);
+	}
+	uni_printf(info->sx->io, ", label %%label%zu [\n", label_default != SIZE_MAX ? label_default : label_end);
+	for (size_t i = 0; i < vector_size(&case_values); i++)
 	{
 		uni_printf(info->sx->io, "  ");
 		type_to_io(info, expression_get_type(&condition));
-		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", vector_get(&case_values, i), info->label_switch - i);
+		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", vector_get(&case_values, i)
+			, (size_t)vector_get(&case_labels, i));
 	}
 	uni_printf(info->sx->io, " ]\n");
 	vector_clear(&case_values);
+	vector_clear(&case_labels);
 
-	info->label_break = info->label_switch - case_num - has_default;
+	info->label_switch = label_begin;
+	info->label_break = label_end;
 	if (statement_get_class(&body) == STMT_COMPOUND)
 	{
 		emit_compound_statement(info, &body, true);
 	}
-	to_code_label(info, info->label_break);
+	to_code_unconditional_branch(info, label_end);
+	to_code_label(info, label_end);
+
+	info->label_switch = old_label_switch;
+	info->label_break = old_label_break;
 }
 
 /**
-- 
2.43.0


From 97178edf0ce05bfd4dd1af233cd10ce82d7ef922 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:54:11 +0000
Subject: [PATCH 85/95] fix: logical negation (LLVM)

---
 libs/compiler/llvmgen.c | 72 +++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 7e4eabd..674bf7b 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -633,6 +633,30 @@ static void to_code_char_to_int(information *const info, const size_t reg)
 }
 
 
+/**
+ *	Check that expression in condition is && or ||, perhaps negated, which branches by itself
+ *
+ *	@param	nd			Node in AST
+ *
+ *	@return	@c 1 on true, @c 0 on false
+ */
+static bool is_branching(const node *const nd)
+{
+	if (expression_get_class(nd) == EXPR_UNARY && expression_unary_get_operator(nd) == UN_LOGNOT)
+	{
+		const node operand = expression_unary_get_operand(nd);
+		return is_branching(&operand);
+	}
+
+	if (expression_get_class(nd) == EXPR_BINARY)
+	{
+		const binary_t operator = expression_binary_get_operator(nd);
+		return operator == BIN_LOG_OR || operator == BIN_LOG_AND;
+	}
+
+	return false;
+}
+
 static void check_type_and_branch(information *const info, const item_t type)
 {
 	switch (info->answer_kind)
@@ -1349,29 +1373,43 @@ static void emit_unary_expression(information *const info, const node *const nd)
 
 		case UN_LOGNOT:
 		{
-			const size_t temp = info->label_true;
-			info->label_true =  info->label_false;
-			info->label_false = temp;
+			if (info->variable_location != LNOLOG && is_branching(&operand))
+			{
+				// Операнд сам выполнит переходы по меткам условия
+				const size_t temp = info->label_true;
+				info->label_true =  info->label_false;
+				info->label_false = temp;
+
+				emit_expression(info, &operand);
+				return;
+			}
 
+			if (info->variable_location != LNOLOG)
+			{
+				info->variable_location = LREG;
+			}
 			emit_expression(info, &operand);
 
-			if (info->answer_kind == AREG)
+			const item_t operand_type = expression_get_type(&operand);
+			if (info->answer_kind == ALOGIC || type_is_boolean(info->sx, operand_type))
 			{
-				if (type_is_pointer(info->sx, expression_get_type(&operand)))
-				{
-					to_code_operation_reg_null(info, BIN_NE, info->answer_reg, expression_get_type(&operand));
-				}
-				else
-				{
-					if (type_is_integer(info->sx, expression_get_type(&operand)))
-					{
-						check_type_and_branch(info, expression_get_type(&operand));
-					}
-					to_code_operation_reg_const_bool(info, BIN_XOR, info->answer_reg, true, TYPE_BOOLEAN);
-				}
-				info->answer_reg = info->register_num++;
+				to_code_operation_reg_const_bool(info, BIN_XOR, info->answer_reg, true, TYPE_BOOLEAN);
+			}
+			else if (type_is_pointer(info->sx, operand_type))
+			{
+				to_code_operation_reg_null(info, BIN_EQ, info->answer_reg, operand_type);
+			}
+			else if (type_is_floating(info->sx, operand_type))
+			{
+				to_code_operation_reg_const_double(info, BIN_EQ, info->answer_reg, 0);
+			}
+			else
+			{
+				to_code_operation_reg_const_integer(info, BIN_EQ, info->answer_reg, 0, operand_type);
 			}
 
+			info->answer_kind = ALOGIC;
+			info->answer_reg = info->register_num++;
 			return;
 		}
 
-- 
2.43.0


From a55207d71d6ba2e4356359aad3283fbc73cfbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:55:46 +0000
Subject: [PATCH 86/95] fix: values of logical and conditional expressions,
 Boolean results (LLVM)

---
 libs/compiler/llvmgen.c | 87 +++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 30 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 674bf7b..8065964 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -74,8 +74,7 @@ typedef struct information
 	size_t label_false;						/**< Метка перехода при false */
 	size_t label_break;						/**< Метка перехода для break */
 	size_t label_continue;					/**< Метка перехода для continue */
-	size_t label_ternary_end;				/**< Метка перехода в конец тернарного выражения */
-	size_t label_phi_previous;				/**< Метка перехода последнего использования phi */
+	size_t label_current;					/**< Метка текущего блока */
 	size_t label_switch;					/**< Метка для switch */
 
 	hash arrays;							/**< Хеш таблица с информацией о массивах:
@@ -458,6 +457,7 @@ static void to_code_store_null(information *const info, const size_t id, const i
 static inline void to_code_label(information *const info, const size_t label_num)
 {
 	uni_printf(info->sx->io, " label%zu:\n", label_num);
+	info->label_current = label_num;
 }
 
 static inline void to_code_unconditional_branch(information *const info, const size_t label_num)
@@ -657,6 +657,27 @@ static bool is_branching(const node *const nd)
 	return false;
 }
 
+static void answer_to_io(information *const info, const item_t type, const answer_t kind, const item_t reg
+	, const item_t const_integer, const bool const_bool, const double const_double)
+{
+	if (kind != ACONST)
+	{
+		uni_printf(info->sx->io, "%%.%" PRIitem, reg);
+	}
+	else if (type_is_floating(info->sx, type))
+	{
+		uni_printf(info->sx->io, "%f", const_double);
+	}
+	else if (type_is_boolean(info->sx, type))
+	{
+		uni_printf(info->sx->io, "%s", const_bool ? "true" : "false");
+	}
+	else
+	{
+		uni_printf(info->sx->io, "%" PRIitem, const_integer);
+	}
+}
+
 static void check_type_and_branch(information *const info, const item_t type)
 {
 	switch (info->answer_kind)
@@ -1800,6 +1821,7 @@ static void emit_binary_expression(information *const info, const node *const nd
 
 			info->variable_location = LFREE;
 			check_type_and_branch(info, expression_get_type(&LHS));
+			const size_t label_LHS = info->label_current;
 
 			to_code_label(info, label_next);
 			info->label_true = old_label_true;
@@ -1811,15 +1833,14 @@ static void emit_binary_expression(information *const info, const node *const nd
 
 			info->variable_location = is_logic ? LFREE : LNOLOG;
 			check_type_and_branch(info, expression_get_type(&RHS));
+			const size_t label_RHS = info->label_current;
 
 			if (!is_logic)
 			{
 				to_code_label(info, info->label_false);
-				uni_printf(info->sx->io, " %%.%zu = phi i1 [ %s, %%%s%zu ], [ %%.%zu, %%label%zu ]\n", info->register_num
-					, operator == BIN_LOG_OR ? "true" : "false", info->label_phi_previous == 0 ? "" : "label"
-					, info->label_phi_previous, info->register_num - 1, label_next);
+				uni_printf(info->sx->io, " %%.%zu = phi i1 [ %s, %%label%zu ], [ %%.%zu, %%label%zu ]\n", info->register_num
+					, operator == BIN_LOG_OR ? "true" : "false", label_LHS, info->register_num - 1, label_RHS);
 
-				info->label_phi_previous = info->label_false;
 				info->answer_reg = info->register_num;
 				info->answer_kind = AREG;
 				info->register_num++;
@@ -1857,8 +1878,8 @@ static void emit_ternary_expression(information *const info, const node *const n
 {
 	const size_t old_label_true = info->label_true;
 	const size_t old_label_false = info->label_false;
-	size_t label_then = info->label_num++;
-	size_t label_else = info->label_num++;
+	const size_t label_then = info->label_num++;
+	const size_t label_else = info->label_num++;
 	const size_t label_end = info->label_num++;
 
 	info->label_true = label_then;
@@ -1874,51 +1895,53 @@ static void emit_ternary_expression(information *const info, const node *const n
 
 	info->variable_location = LFREE;
 	const node LHS = expression_ternary_get_LHS(nd);
-	const bool then_is_ternary = expression_get_class(&LHS) == EXPR_TERNARY;
 	emit_expression(info, &LHS);
 
 	const answer_t then_answer = info->answer_kind;
 	const item_t then_reg = info->answer_reg;
 	const item_t then_const = info->answer_const;
 
-	if (then_is_ternary)
-	{
-		label_then = info->label_ternary_end;
-	}
+	const bool then_const_bool = info->answer_const_bool;
+	const double then_const_double = info->answer_const_double;
+	const size_t label_then_end = info->label_current;
 
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_else);
 
 	info->variable_location = LFREE;
 	const node RHS = expression_ternary_get_RHS(nd);
-	const bool else_is_ternary = expression_get_class(&RHS) == EXPR_TERNARY;
 	emit_expression(info, &RHS);
 
 	const answer_t else_answer = info->answer_kind;
 	const item_t else_reg = info->answer_reg;
 	const item_t else_const = info->answer_const;
 
-	if (else_is_ternary)
-	{
-		label_else = info->label_ternary_end;
-	}
+	const bool else_const_bool = info->answer_const_bool;
+	const double else_const_double = info->answer_const_double;
+	const size_t label_else_end = info->label_current;
 
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_end);
 
+	info->label_true = old_label_true;
+	info->label_false = old_label_false;
+
+	const item_t type = expression_get_type(nd);
+	if (type_is_void(type))
+	{
+		return;
+	}
+
 	uni_printf(info->sx->io, " %%.%zu = phi ", info->register_num);
-	type_to_io(info, expression_get_type(nd));
-	uni_printf(info->sx->io, " [ %s%" PRIitem ", %%label%zu ]", then_answer == AREG ? "%." : ""
-		, then_answer == AREG ? then_reg : then_const, label_then);
-	uni_printf(info->sx->io, ", [ %s%" PRIitem ", %%label%zu ]\n", else_answer == AREG ? "%." : ""
-		, else_answer == AREG ? else_reg : else_const, label_else);
+	type_to_io(info, type);
+	uni_printf(info->sx->io, " [ ");
+	answer_to_io(info, type, then_answer, then_reg, then_const, then_const_bool, then_const_double);
+	uni_printf(info->sx->io, ", %%label%zu ], [ ", label_then_end);
+	answer_to_io(info, type, else_answer, else_reg, else_const, else_const_bool, else_const_double);
+	uni_printf(info->sx->io, ", %%label%zu ]\n", label_else_end);
 
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
-
-	info->label_true = old_label_true;
-	info->label_false = old_label_false;
-	info->label_ternary_end = label_end;
 }
 
 /**
@@ -2489,6 +2512,7 @@ static void emit_function_definition(information *const info, const node *const
 		type_to_io(info, param_type);
 	}
 	uni_printf(info->sx->io, ") {\n");
+	to_code_label(info, info->label_num++);
 
 	for (size_t i = 0; i < parameters; i++)
 	{
@@ -2833,7 +2857,6 @@ static void emit_return_statement(information *const info, const node *const nd)
 		const node expression = statement_return_get_expression(nd);
 		emit_expression(info, &expression);
 
-		// TODO: добавить обработку других ответов (ALOGIC)
 		const item_t answer_type = expression_get_type(&expression);
 		if (info->answer_kind == ACONST && type_is_integer(info->sx, answer_type))
 		{
@@ -2843,7 +2866,11 @@ static void emit_return_statement(information *const info, const node *const nd)
 		{
 			uni_printf(info->sx->io, " ret double %f\n", info->answer_const_double);
 		}
-		else if (info->answer_kind == AREG)
+		else if (info->answer_kind == ACONST && type_is_boolean(info->sx, answer_type))
+		{
+			uni_printf(info->sx->io, " ret i1 %s\n", info->answer_const_bool ? "true" : "false");
+		}
+		else if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
 		{
 			uni_printf(info->sx->io, " ret ");
 			type_to_io(info, answer_type);
@@ -3322,7 +3349,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	info.was_fabs = false;
 	info.is_main = false;
 	info.is_call = false;
-	info.label_phi_previous = 0;
+	info.label_current = 0;
 	for (size_t i = 0; i < BEGIN_USER_FUNC; i++)
 	{
 		info.was_function[i] = false;
-- 
2.43.0


From 51bdf46119e912ac47c8a887ae6d01d1a1080d32 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:58:24 +0000
Subject: [PATCH 87/95] fix: logical operators in values and conditions with
 assignments (LLVM)

---
 libs/compiler/llvmgen.c | 45 ++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 8065964..342f174 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1394,7 +1394,7 @@ static void emit_unary_expression(information *const info, const node *const nd)
 
 		case UN_LOGNOT:
 		{
-			if (info->variable_location != LNOLOG && is_branching(&operand))
+			if (info->variable_location == LFREE && is_branching(&operand))
 			{
 				// Операнд сам выполнит переходы по меткам условия
 				const size_t temp = info->label_true;
@@ -1405,10 +1405,7 @@ static void emit_unary_expression(information *const info, const node *const nd)
 				return;
 			}
 
-			if (info->variable_location != LNOLOG)
-			{
-				info->variable_location = LREG;
-			}
+			info->variable_location = LNOLOG;
 			emit_expression(info, &operand);
 
 			const item_t operand_type = expression_get_type(&operand);
@@ -1547,7 +1544,7 @@ static void emit_integral_expression(information *const info, const node *const
 {
 	const binary_t operation = expression_binary_get_operator(nd);
 
-	info->variable_location = LFREE;
+	info->variable_location = LNOLOG;
 	const node LHS = expression_binary_get_LHS(nd);
 	item_t operation_type = expression_get_type(&LHS);
 	emit_expression(info, &LHS);
@@ -1558,7 +1555,7 @@ static void emit_integral_expression(information *const info, const node *const
 	const item_t left_const = info->answer_const;
 	const double left_const_double = info->answer_const_double;
 
-	info->variable_location = LFREE;
+	info->variable_location = LNOLOG;
 	const node RHS = expression_binary_get_RHS(nd);
 	emit_expression(info, &RHS);
 
@@ -1770,7 +1767,9 @@ static void emit_binary_expression(information *const info, const node *const nd
 		case BIN_LOG_OR:
 		case BIN_LOG_AND:
 		{
-			const bool is_logic = info->variable_location != LNOLOG;
+			const bool is_logic = info->variable_location == LFREE;
+			const size_t outer_label_true = info->label_true;
+			const size_t outer_label_false = info->label_false;
 			if (!is_logic)
 			{
 				info->label_true = info->label_num++;
@@ -1844,6 +1843,9 @@ static void emit_binary_expression(information *const info, const node *const nd
 				info->answer_reg = info->register_num;
 				info->answer_kind = AREG;
 				info->register_num++;
+
+				info->label_true = outer_label_true;
+				info->label_false = outer_label_false;
 			}
 			else
 			{
@@ -1854,9 +1856,12 @@ static void emit_binary_expression(information *const info, const node *const nd
 
 		case BIN_COMMA:
 		{
+			const location_t location = info->variable_location;
+			info->variable_location = LNOLOG;
 			const node LHS = expression_binary_get_LHS(nd);
 			emit_expression(info, &LHS);
 
+			info->variable_location = location;
 			const node RHS = expression_binary_get_RHS(nd);
 			emit_expression(info, &RHS);
 		}
@@ -1889,11 +1894,12 @@ static void emit_ternary_expression(information *const info, const node *const n
 	const node condition = expression_ternary_get_condition(nd);
 	emit_expression(info, &condition);
 
+	info->variable_location = LFREE;
 	check_type_and_branch(info, expression_get_type(&condition));
 
 	to_code_label(info, label_then);
 
-	info->variable_location = LFREE;
+	info->variable_location = LNOLOG;
 	const node LHS = expression_ternary_get_LHS(nd);
 	emit_expression(info, &LHS);
 
@@ -1908,7 +1914,7 @@ static void emit_ternary_expression(information *const info, const node *const n
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_else);
 
-	info->variable_location = LFREE;
+	info->variable_location = LNOLOG;
 	const node RHS = expression_ternary_get_RHS(nd);
 	emit_expression(info, &RHS);
 
@@ -1960,7 +1966,7 @@ static void emit_initializer_expression(information *const info, const node *con
 
 		for (size_t i = 0; i < size; i++)
 		{
-			info->variable_location = LFREE;
+			info->variable_location = LNOLOG;
 			const node initializer = expression_initializer_get_subexpr(nd, i);
 			emit_expression(info, &initializer);
 
@@ -2075,7 +2081,7 @@ static void emit_one_dimension_initialization(information *const info, const nod
 
 		to_code_slice(info, id, cur_dimension, prev_slice, type, is_local);
 
-		info->variable_location = LFREE;
+		info->variable_location = LNOLOG;
 		const node initializer = expression_initializer_get_subexpr(nd, i);
 
 		// последнее измерение
@@ -2242,7 +2248,7 @@ static void emit_initialization(information *const info, const node *const nd, c
 	}
 	else if (expression_get_class(nd) == EXPR_CALL && type_is_structure(info->sx, expression_get_type(nd)))
 	{
-		info->variable_location = LFREE;
+		info->variable_location = LNOLOG;
 		emit_expression(info, nd);
 		to_code_store_reg(info, info->answer_reg, (size_t)id, arr_type, false, false, true);
 	}
@@ -2279,7 +2285,7 @@ static void emit_variable_declaration(information *const info, const node *const
 
 		if (declaration_variable_has_initializer(nd))
 		{
-			info->variable_location = LFREE;
+			info->variable_location = LNOLOG;
 			info->request_reg = id;
 
 			if (type_is_structure(info->sx, type))
@@ -2358,7 +2364,7 @@ static void emit_variable_declaration(information *const info, const node *const
 
 		if (declaration_variable_has_initializer(nd))
 		{
-			info->variable_location = LFREE;
+			info->variable_location = LNOLOG;
 
 			if (type_is_structure(info->sx, type))
 			{
@@ -2424,7 +2430,7 @@ static void emit_variable_declaration(information *const info, const node *const
 		const size_t bounds = declaration_variable_get_bounds_amount(nd);
 		for (size_t j = 1; j <= bounds; j++)
 		{
-			info->variable_location = LFREE;
+			info->variable_location = LNOLOG;
 			const node dim_size = declaration_variable_get_bound(nd, j - 1);
 			emit_expression(info, &dim_size);
 
@@ -2647,6 +2653,7 @@ static void emit_if_statement(information *const info, const node *const nd)
 	const node condition = statement_if_get_condition(nd);
 	emit_expression(info, &condition);
 
+	info->variable_location = LFREE;
 	check_type_and_branch(info, expression_get_type(&condition));
 
 	to_code_label(info, label_if);
@@ -2698,6 +2705,7 @@ static void emit_while_statement(information *const info, const node *const nd)
 	const node condition = statement_while_get_condition(nd);
 	emit_expression(info, &condition);
 
+	info->variable_location = LFREE;
 	check_type_and_branch(info, expression_get_type(&condition));
 
 	to_code_label(info, label_body);
@@ -2748,6 +2756,7 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const node condition = statement_do_get_condition(nd);
 	emit_expression(info, &condition);
 
+	info->variable_location = LFREE;
 	check_type_and_branch(info, expression_get_type(&condition));
 
 	to_code_label(info, label_end);
@@ -2796,6 +2805,8 @@ static void emit_for_statement(information *const info, const node *const nd)
 		info->variable_location = LFREE;
 		const node condition = statement_for_get_condition(nd);
 		emit_expression(info, &condition);
+
+		info->variable_location = LFREE;
 		check_type_and_branch(info, expression_get_type(&condition));
 	}
 	else
@@ -2806,6 +2817,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	to_code_label(info, label_incr);
 	if (statement_for_has_increment(nd))
 	{
+		info->variable_location = LNOLOG;
 		const node increment = statement_for_get_increment(nd);
 		emit_expression(info, &increment);
 	}
@@ -3048,6 +3060,7 @@ static void emit_statement(information *const info, const node *const nd)
 			return;
 
 		case STMT_EXPR:
+			info->variable_location = LNOLOG;
 			emit_expression(info, nd);
 			return;
 
-- 
2.43.0


From d9414af2bded4770da4f3c70740a8019bf758ede Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:04:20 +0000
Subject: [PATCH 88/95] fix: Boolean values are compared and initialise
 variables (LLVM)

---
 libs/compiler/llvmgen.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 342f174..66128c9 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -296,10 +296,10 @@ static void operation_to_io(information *const info, const binary_t operation_ty
 			break;
 
 		case BIN_EQ:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp eq" : "fcmp oeq");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp oeq" : "icmp eq");
 			break;
 		case BIN_NE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp ne" : "fcmp one");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp one" : "icmp ne");
 			break;
 		case BIN_LT:
 			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp slt" : "fcmp olt");
@@ -1550,18 +1550,20 @@ static void emit_integral_expression(information *const info, const node *const
 	emit_expression(info, &LHS);
 
 	// TODO: спрятать эти переменные в одну структуру и возвращать ее из emit_expr
-	const answer_t left_kind = info->answer_kind;
+	const answer_t left_kind = info->answer_kind == ALOGIC ? AREG : info->answer_kind;
 	size_t left_reg = info->answer_reg;
 	const item_t left_const = info->answer_const;
+	const bool left_const_bool = info->answer_const_bool;
 	const double left_const_double = info->answer_const_double;
 
 	info->variable_location = LNOLOG;
 	const node RHS = expression_binary_get_RHS(nd);
 	emit_expression(info, &RHS);
 
-	const answer_t right_kind = info->answer_kind;
+	const answer_t right_kind = info->answer_kind == ALOGIC ? AREG : info->answer_kind;
 	size_t right_reg = info->answer_reg;
 	const item_t right_const = info->answer_const;
+	const bool right_const_bool = info->answer_const_bool;
 	const double right_const_double = info->answer_const_double;
 
 	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
@@ -1583,6 +1585,15 @@ static void emit_integral_expression(information *const info, const node *const
 	{
 		to_code_operation_reg_reg(info, operation, left_reg, right_reg, operation_type);
 	}
+	else if (left_kind == AREG && right_kind == ACONST && type_is_boolean(info->sx, operation_type))
+	{
+		to_code_operation_reg_const_bool(info, operation, left_reg, right_const_bool, operation_type);
+	}
+	else if (left_kind == ACONST && right_kind == AREG && type_is_boolean(info->sx, operation_type))
+	{
+		// Логические значения сравниваются только на равенство и неравенство
+		to_code_operation_reg_const_bool(info, operation, right_reg, left_const_bool, operation_type);
+	}
 	else if (left_kind == AREG && right_kind == ACONST && type_is_integer(info->sx, operation_type))
 	{
 		to_code_operation_reg_const_integer(info, operation, left_reg, right_const, operation_type);
@@ -2328,7 +2339,7 @@ static void emit_variable_declaration(information *const info, const node *const
 					to_code_store_const_double(info, info->answer_const_double, info->request_reg, false, is_local);
 				}
 			}
-			else if (info->answer_kind == AREG)
+			else if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
 			{
 				to_code_store_reg(info, info->answer_reg, id, type, false, false, is_local);
 			}
@@ -2385,6 +2396,10 @@ static void emit_variable_declaration(information *const info, const node *const
 				{
 					uni_printf(info->sx->io, " %" PRIitem ", align 4\n", info->answer_const);
 				}
+				else if (type_is_boolean(info->sx, type))
+				{
+					uni_printf(info->sx->io, " %s, align 4\n", info->answer_const_bool ? "true" : "false");
+				}
 				else
 				{
 					uni_printf(info->sx->io, " %f, align 4\n", info->answer_const_double);
-- 
2.43.0


From 8a05cb25225f406db1ccf206f1d327e3acd59081 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:04:20 +0000
Subject: [PATCH 89/95] fix: floating literals keep their precision (LLVM)

---
 libs/compiler/llvmgen.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 66128c9..bf56e20 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -353,7 +353,7 @@ static void to_code_operation_reg_const_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %%.%zu, %f\n", fst, snd);
+	uni_printf(info->sx->io, " double %%.%zu, %.17e\n", fst, snd);
 }
 
 static void to_code_operation_const_reg_integer(information *const info, const binary_t operation
@@ -371,7 +371,7 @@ static void to_code_operation_const_reg_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %f, %%.%zu\n", fst, snd);
+	uni_printf(info->sx->io, " double %.17e, %%.%zu\n", fst, snd);
 }
 
 static void to_code_operation_reg_null(information *const info, const binary_t operation
@@ -441,7 +441,7 @@ static inline void to_code_store_const_bool(information *const info, const bool
 static inline void to_code_store_const_double(information *const info, const double arg, const size_t id
 	, const bool is_array, const bool is_local)
 {
-	uni_printf(info->sx->io, " store double %f, double* %s%s.%zu, align 4\n"
+	uni_printf(info->sx->io, " store double %.17e, double* %s%s.%zu, align 4\n"
 		, arg, is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
@@ -666,7 +666,7 @@ static void answer_to_io(information *const info, const item_t type, const answe
 	}
 	else if (type_is_floating(info->sx, type))
 	{
-		uni_printf(info->sx->io, "%f", const_double);
+		uni_printf(info->sx->io, "%.17e", const_double);
 	}
 	else if (type_is_boolean(info->sx, type))
 	{
@@ -1205,7 +1205,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 		}
 		else // double
 		{
-			uni_printf(info->sx->io, " %f", arguments_double[i]);
+			uni_printf(info->sx->io, " %.17e", arguments_double[i]);
 		}
 	}
 	uni_printf(info->sx->io, ")\n");
@@ -2250,7 +2250,7 @@ static void emit_initialization(information *const info, const node *const nd, c
 				// константа типа double
 				else
 				{
-					uni_printf(info->sx->io, "double %f", info->answer_const_double);
+					uni_printf(info->sx->io, "double %.17e", info->answer_const_double);
 				}
 			}
 
@@ -2402,7 +2402,7 @@ static void emit_variable_declaration(information *const info, const node *const
 				}
 				else
 				{
-					uni_printf(info->sx->io, " %f, align 4\n", info->answer_const_double);
+					uni_printf(info->sx->io, " %.17e, align 4\n", info->answer_const_double);
 				}
 			}
 		}
@@ -2891,7 +2891,7 @@ static void emit_return_statement(information *const info, const node *const nd)
 		}
 		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
 		{
-			uni_printf(info->sx->io, " ret double %f\n", info->answer_const_double);
+			uni_printf(info->sx->io, " ret double %.17e\n", info->answer_const_double);
 		}
 		else if (info->answer_kind == ACONST && type_is_boolean(info->sx, answer_type))
 		{
-- 
2.43.0


From 1e6ad203a4b1291b7b9759174fbedb4756ecdc8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:08:55 +0000
Subject: [PATCH 90/95] fix: char operands are promoted, floating operands are
 negated with their zero (LLVM)

---
 libs/compiler/llvmgen.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index bf56e20..bd6eb59 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1384,7 +1384,7 @@ static void emit_unary_expression(information *const info, const node *const nd)
 			}
 			else if (operator == UN_MINUS && type_is_floating(info->sx, operation_type))
 			{
-				to_code_operation_const_reg_double(info, BIN_SUB, 0, info->answer_reg);
+				uni_printf(info->sx->io, " %%.%zu = fneg double %%.%zu\n", info->register_num, info->answer_reg);
 			}
 
 			info->answer_kind = AREG;
@@ -1566,18 +1566,23 @@ static void emit_integral_expression(information *const info, const node *const
 	const bool right_const_bool = info->answer_const_bool;
 	const double right_const_double = info->answer_const_double;
 
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && left_kind != ACONST)
+	// Операнды литерного типа приводятся к целому
+	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER)
 	{
-		to_code_char_to_int(info, left_reg);
-		left_reg = info->register_num - 1;
+		if (left_kind == AREG)
+		{
+			to_code_char_to_int(info, left_reg);
+			left_reg = info->register_num - 1;
+		}
 		operation_type = TYPE_INTEGER;
 	}
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && right_kind != ACONST)
+	if (type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER)
 	{
-		to_code_char_to_int(info, right_reg);
-		right_reg = info->register_num - 1;
+		if (right_kind == AREG)
+		{
+			to_code_char_to_int(info, right_reg);
+			right_reg = info->register_num - 1;
+		}
 		operation_type = TYPE_INTEGER;
 	}
 
@@ -1619,16 +1624,6 @@ static void emit_integral_expression(information *const info, const node *const
 		to_code_operation_null_reg(info, operation, right_reg, operation_type);
 	}
 
-	if (operation_type == TYPE_CHARACTER && kind == AREG)
-	{
-		info->register_num++;
-		to_code_char_to_int(info, info->register_num - 1);
-		info->answer_reg = info->register_num - 1;
-		info->answer_kind = kind;
-
-		return;
-	}
-
 	info->answer_reg = info->register_num++;
 	info->answer_kind = kind;
 }
-- 
2.43.0


From d839141eb70667386da3f7a8579712b1d0f0cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 91/95] fix: types of constants have names (LLVM)

---
 libs/compiler/llvmgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index bd6eb59..df53ea4 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -148,6 +148,10 @@ static void type_to_io(information *const info, const item_t type)
 	const type_t type_class = type_get_class(info->sx, type);
 	switch (type_class)
 	{
+		case TYPE_CONST:
+			type_to_io(info, type_const_get_unqualified_type(info->sx, type));
+			break;
+
 		case TYPE_VARARG:
 			uni_printf(info->sx->io, "...");
 			break;
-- 
2.43.0


From cdd792c952eba7bd1cf03c2e0885f450e6e7cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 92/95] fix: slices of arrays with computed bounds step over
 whole slices (LLVM)

---
 libs/compiler/llvmgen.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index df53ea4..a60d0e7 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -555,9 +555,31 @@ static void to_code_alloc_array_dynamic(information *const info, const size_t in
 static void to_code_slice(information *const info, const item_t id, const size_t cur_dimension
 	, const item_t prev_slice, const item_t type, const bool is_local)
 {
-	uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds ", info->register_num);
 	const size_t dimensions = hash_get_amount(&info->arrays, id) - 1;
 
+	if (dimensions != SIZE_MAX && !hash_get(&info->arrays, id, IS_STATIC))
+	{
+		// Шаг динамического измерения равен произведению вложенных границ
+		for (size_t i = dimensions - cur_dimension + 1; i <= dimensions; i++)
+		{
+			uni_printf(info->sx->io, " %%.%zu = mul nsw i32 %%.%" PRIitem, info->register_num
+				, hash_get(&info->arrays, id, i));
+			if (info->answer_kind == AREG)
+			{
+				uni_printf(info->sx->io, ", %%.%zu\n", info->answer_reg);
+			}
+			else // if (info->answer_kind == ACONST)
+			{
+				uni_printf(info->sx->io, ", %" PRIitem "\n", info->answer_const);
+			}
+
+			info->answer_kind = AREG;
+			info->answer_reg = info->register_num++;
+		}
+	}
+
+	uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds ", info->register_num);
+
 	if (dimensions == SIZE_MAX)
 	{
 		return;
-- 
2.43.0


From 5a54913c1f2e4cc2cd16e32bcaba6355ff12f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 93/95] fix: Boolean elements in initialisers (LLVM)

---
 libs/compiler/llvmgen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a60d0e7..b45ac4a 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2121,9 +2121,14 @@ static void emit_one_dimension_initialization(information *const info, const nod
 		{
 			emit_expression(info, &initializer);
 
-			if (info->answer_kind == AREG)
+			if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
+			{
+				to_code_store_reg(info, info->answer_reg, slice_reg, type, true, false, true);
+			}
+			// логическая константа
+			else if (type_is_boolean(info->sx, type))
 			{
-				to_code_store_reg(info, info->answer_reg, slice_reg, type, true, false, is_local);
+				to_code_store_const_bool(info, info->answer_const_bool, slice_reg, true, true);
 			}
 			// константа типа int
 			else if (type_is_integer(info->sx, type))
-- 
2.43.0


From de6b51160cb20b3c4f6899b1a8b8c146e6ac409f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 94/95] fix: addresses of global variables, members and
 elements, address arguments (LLVM)

---
 libs/compiler/llvmgen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index b45ac4a..74de456 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -420,7 +420,7 @@ static void to_code_store_reg(information *const info, const size_t reg, const s
 {
 	uni_printf(info->sx->io, " store ");
 	type_to_io(info, type);
-	uni_printf(info->sx->io, " %s%s.%zu, ", /*ident_is_local(info->sx, reg)*/true ? "%" : "@", is_pointer ? "var" : "", reg);
+	uni_printf(info->sx->io, " %s%s.%zu, ", is_pointer && !ident_is_local(info->sx, reg) ? "@" : "%", is_pointer ? "var" : "", reg);
 	type_to_io(info, type);
 	uni_printf(info->sx->io, "* %s%s.%zu, align 4\n", is_local ? "%" : "@", is_array ? "" : "var", id);
 }
@@ -1104,7 +1104,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 		// TODO: сделать параметры других типов (логическое)
 		arguments_type[i] = info->answer_kind;
 
-		if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
+		if (info->answer_kind == AREG || info->answer_kind == ALOGIC || info->answer_kind == AMEM)
 		{
 			arguments[i] = info->answer_reg;
 		}
@@ -1210,6 +1210,10 @@ static void emit_call_expression(information *const info, const node *const nd)
 		{
 			uni_printf(info->sx->io, " %%.%" PRIitem, arguments[i]);
 		}
+		else if (arguments_type[i] == AMEM) // указатель
+		{
+			uni_printf(info->sx->io, " %s.%" PRIitem, ident_is_local(info->sx, (size_t)arguments[i]) ? "%var" : "@var", arguments[i]);
+		}
 		else if (arguments_type[i] == ASTR)
 		{
 			const size_t index = (size_t)arguments[i];
@@ -1476,6 +1480,8 @@ static void emit_unary_expression(information *const info, const node *const nd)
 			{
 				info->variable_location = LMEM;
 				emit_expression(info, &operand);
+				// Адрес уже вычислен в регистре
+				info->answer_kind = AREG;
 			}
 			return;
 		}
-- 
2.43.0


From c217bf9200a5aa2a6acf5690205bb6b0fac9f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:36:55 +0000
Subject: [PATCH 95/95] fix: registers are not mistaken for identifiers (LLVM)

---
 libs/compiler/llvmgen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 74de456..588c070 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1344,7 +1344,7 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 		id = (size_t)info->answer_reg;
 	}
 
-	to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+	to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
 
@@ -1372,7 +1372,7 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 			break;
 	}
 
-	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, ident_is_local(info->sx, id));
+	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, is_complex || ident_is_local(info->sx, id));
 	info->register_num++;
 }
 
@@ -1719,7 +1719,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 	if (assignment_type != BIN_ASSIGN)
 	{
-		to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+		to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
 		info->register_num++;
 
 		if (info->answer_kind == AREG)
-- 
2.43.0

