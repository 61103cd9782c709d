From 55ba2cc2276683cee0c3a73ce5572ed8382dc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 01/67] fix: usual arithmetic conversions decide the signedness
 of native operators

---
 exe.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/exe.c b/exe.c
index a70980c..15455c2 100644
--- a/exe.c
+++ b/exe.c
@@ -615,6 +615,23 @@ bool is_signed_numeric_type(ast type) {
   }
 }
 
+// Integer promotion: types narrower than int (and enums) are converted to int,
+// which can represent all of their values.
+ast integer_promotion(ast type) {
+  int op = get_op(type);
+  return op == CHAR_KW || op == SHORT_KW || op == ENUM_KW ? int_type : type;
+}
+
+// Common type of the operands of an arithmetic operation
+ast arithmetic_type(ast left_type, ast right_type) {
+  left_type = integer_promotion(left_type);
+  right_type = integer_promotion(right_type);
+  if (get_op(left_type) == LONG_KW && get_op(right_type) == INT_KW) return left_type;
+  if (get_op(left_type) == INT_KW && get_op(right_type) == LONG_KW) return right_type;
+  // Same width: the operation is unsigned if one of the operands is.
+  return is_signed_numeric_type(left_type) ? right_type : left_type;
+}
+
 // Size an object of the given type would occupy in memory (in bytes).
 // If array_value is true, the size of the array is returned, otherwise the
 // size of the pointer is returned.
@@ -885,8 +902,10 @@ ast value_type(ast node) {
       return pointer_type(left_type, false);
     } else if (op == '!') {
       return int_type; // Logical not always returns an integer
-    } else if (op == '+' || op == '-' || op == '~' || op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
-      // Unary operation don't change the type
+    } else if (op == '+' || op == '-' || op == '~') {
+      return integer_promotion(value_type(child0));
+    } else if (op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
+      // These unary operations don't change the type
       return value_type(child0);
     } else if (op == SIZEOF_KW) {
       return int_type; // sizeof always returns an integer
@@ -907,9 +926,12 @@ ast value_type(ast node) {
       } else if (is_pointer_type(left_type)) {
         // if left is an array or a pointer, the type is also a pointer
         return left_type;
-      } else {
-        // if left is not a pointer, the type is the type of the right operand
+      } else if (is_pointer_type(right_type)) {
         return right_type;
+      } else if (op == LSHIFT || op == RSHIFT) {
+        return integer_promotion(left_type); // The right operand doesn't affect the type of shifts
+      } else {
+        return arithmetic_type(left_type, right_type);
       }
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
@@ -932,8 +954,7 @@ ast value_type(ast node) {
     } else if (op == '=' || op == AMP_EQ || op == BAR_EQ || op == CARET_EQ || op == LSHIFT_EQ || op == MINUS_EQ || op == PERCENT_EQ || op == PLUS_EQ || op == RSHIFT_EQ || op == SLASH_EQ || op == STAR_EQ) {
       return value_type(child0); // Only the left side is relevant here
     } else if (op == AMP_AMP || op == BAR_BAR) {
-      // TODO: Check that the operands have compatible types?
-      return value_type(child0);
+      return int_type; // Logical operators always return an integer
     } else if (op == '(') {
       binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
       if (binding != 0) {
@@ -998,9 +1019,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
   int width;
-  // If any of the operands is unsigned, the result is unsigned
-  bool is_signed = false;
-  if (is_signed_numeric_type(left_type) && is_signed_numeric_type(right_type)) is_signed = true;
+  // The operation is unsigned if the common type of its operands is unsigned
+  bool is_signed = is_signed_numeric_type(arithmetic_type(left_type, right_type));
 
   pop_reg(reg_Y); // rhs operand
   pop_reg(reg_X); // lhs operand
@@ -1070,7 +1090,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   }
   else if (op == RSHIFT || op == RSHIFT_EQ) {
     if (!left_is_numeric || !right_is_numeric) fatal_error("invalid operands to >>");
-    if (is_signed) sar_reg_reg(reg_X, reg_Y);
+    // Only the type of the left operand matters for shifts
+    if (is_signed_numeric_type(integer_promotion(left_type))) sar_reg_reg(reg_X, reg_Y);
     else shr_reg_reg(reg_X, reg_Y);
   }
   else if (op == LSHIFT || op == LSHIFT_EQ) {
-- 
2.43.0


From 6138803a3350beaad7dbfad676c0059ff31be168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 02/67] fix: && and || evaluate to 0 or 1 in native code

---
 exe.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exe.c b/exe.c
index 15455c2..3a6420b 100644
--- a/exe.c
+++ b/exe.c
@@ -1600,6 +1600,14 @@ void codegen_rvalue(ast node) {
       codegen_rvalue(child1);
       grow_fs(-1);
       def_label(lbl1);
+      // The result is 0 or 1
+      lbl2 = alloc_label(0);
+      pop_reg(reg_X);
+      xor_reg_reg(reg_Y, reg_Y);
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
+      mov_reg_imm(reg_X, 1);
+      def_label(lbl2);
+      push_reg(reg_X);
     } else if (op == '(') {
       codegen_call(node);
     } else if (op == '.') {
-- 
2.43.0


From e6a56c75589b1163979bc3eb1e9fb1d79362baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 03/67] fix: pointer differences are divided by the element
 size as signed values

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 3a6420b..189daab 100644
--- a/exe.c
+++ b/exe.c
@@ -281,7 +281,7 @@ void div_for_pointer_arith(int reg, int width) {
     }
 
     mov_reg_imm(reg_Y, width);
-    div_reg_reg(reg_X, reg_Y);
+    idiv_reg_reg(reg_X, reg_Y); // The difference is signed
 
     if (reg_start != reg_X) {
       mov_reg_reg(reg_start, reg_X);
-- 
2.43.0


From 648bc6b7a1a99aa0eb842af7130df36df65d95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 04/67] fix: casts to types narrower than a word always convert
 the value in native code

---
 exe.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 189daab..617cf6b 100644
--- a/exe.c
+++ b/exe.c
@@ -1649,11 +1649,12 @@ void codegen_rvalue(ast node) {
       }
     } else if (op == CAST) {
       codegen_rvalue(child1);
-      // If the cast is to a value narrower than the width of the value, we need
-      // to truncate the value. This is done by writing the value to the stack
-      // and then reading it back, sign extending it if necessary.
+      // If the cast is to a type narrower than a word, we need to convert the
+      // value, even if it has the same width since its signedness may differ.
+      // This is done by writing the value to the stack and then reading it back,
+      // sign extending it if necessary.
       child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      if (type_width(child0, false, false) < type_width(value_type(child1), false, false)) {
+      if (type_width(child0, false, false) < WORD_SIZE) {
         load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
         grow_stack(-1);
         push_reg(reg_X);
-- 
2.43.0


From e5e1bf74251aa4bd13f562572987517dda3cb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 05/67] fix: continue in a do-while loop evaluates the
 condition in native code

---
 exe.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 617cf6b..6d007b2 100644
--- a/exe.c
+++ b/exe.c
@@ -2199,13 +2199,15 @@ void codegen_statement(ast node) {
 
     lbl1 = alloc_label(0); // do statement start
     lbl2 = alloc_label(0); // break point
+    lbl3 = alloc_label(0); // continue point: the condition
 
     save_fs = cgc_fs;
     save_locals = cgc_locals;
 
-    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl1);
+    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl3);
     def_label(lbl1);
     codegen_statement(get_child_(DO_KW, node, 0));
+    def_label(lbl3);
     codegen_rvalue(get_child_(DO_KW, node, 1));
     pop_reg(reg_X);
     grow_fs(-1);
-- 
2.43.0


From 1509f02e3dc58651c057c61d3ba29f0105a39ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 06/67] fix: struct members are aligned when accessed and
 initialized in native code

---
 exe.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/exe.c b/exe.c
index 6d007b2..1f0e9c3 100644
--- a/exe.c
+++ b/exe.c
@@ -764,6 +764,12 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
   while (members != 0) {
     decl = car_(DECL, members);
     ident = get_child_opt_(DECL, IDENTIFIER, decl, 0);
+    member_size = type_width(get_child_(DECL, decl, 1), true, false);
+
+    if (get_op(struct_type) == STRUCT_KW && member_size != 0) {
+      offset = align_to(type_largest_member(get_child_(DECL, decl, 1)), offset);
+    }
+
     if (ident == 0) { // Anonymous struct member, search that struct
       sub_offset = struct_member_offset_go(get_child_(DECL, decl, 1), member_ident);
       if (sub_offset != -1) return offset + sub_offset;
@@ -775,8 +781,6 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
       // For unions, fields are always at offset 0. We must still iterate
       // because the field may be in an anonymous struct, in which case the
       // final offset is not 0.
-      member_size = type_width(get_child_(DECL, decl, 1), true, false);
-      if (member_size != 0) offset = align_to(type_largest_member(get_child_(DECL, decl, 1)), offset);
       offset += member_size;
     }
     members = tail(members);
@@ -1857,6 +1861,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
   ast inner_type;
   int arr_len;
   int inner_type_width;
+  int start_offset = offset;
 
   type = canonicalize_type(type);
 
@@ -1899,8 +1904,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           members = get_child_(STRUCT_KW, type, 2);
           while (init != 0 && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) offset = start_offset + align_to(type_largest_member(inner_type), offset - start_offset);
             codegen_initializer(local, car(init), inner_type, base_reg, offset);
-            offset += type_width(inner_type, true, false);
+            offset += inner_type_width;
             init = tail(init);
             members = tail(members);
           }
@@ -1908,8 +1915,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           // Initialize rest of the members to 0
           while (local && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-            initialize_memory(0, base_reg, offset, type_width(inner_type, true, false));
-            offset += type_width(inner_type, true, false);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) offset = start_offset + align_to(type_largest_member(inner_type), offset - start_offset);
+            initialize_memory(0, base_reg, offset, inner_type_width);
+            offset += inner_type_width;
             members = tail(members);
           }
           break;
-- 
2.43.0


From eca75ba0bb26e2fe8849411f1af2cf7f27fe9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 07/67] fix: initializing a struct from another copies exactly
 its bytes

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 1f0e9c3..ea665b0 100644
--- a/exe.c
+++ b/exe.c
@@ -1953,7 +1953,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
         codegen_lvalue(init);
         pop_reg(reg_X);
         grow_fs(-1);
-        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, true));
+        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, false));
       } else if (get_op(type) != '[') {
         codegen_rvalue(init);
         pop_reg(reg_X);
-- 
2.43.0


From ed31dfc361058c285cc241b06f3d6c1efcc73e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 08/67] fix: members of anonymous structs inside unions are
 accessed at their offset

---
 exe.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/exe.c b/exe.c
index ea665b0..fe2e84c 100644
--- a/exe.c
+++ b/exe.c
@@ -1325,10 +1325,8 @@ int codegen_lvalue(ast node) {
       if (is_struct_or_union_type(type)) {
         codegen_lvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        // union members are at offset 0 unless they come from an anonymous struct
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1342,10 +1340,8 @@ int codegen_lvalue(ast node) {
         type = get_child_('*', type, 1);
         codegen_rvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        // union members are at offset 0 unless they come from an anonymous struct
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1621,10 +1617,8 @@ void codegen_rvalue(ast node) {
         codegen_lvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        // union members are at offset 0 unless they come from an anonymous struct
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
@@ -1640,10 +1634,8 @@ void codegen_rvalue(ast node) {
         codegen_rvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        // union members are at offset 0 unless they come from an anonymous struct
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
-- 
2.43.0


From 2e40a96f8712581c9e90ff1937214b3a400d4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 09/67] fix: the type of a call is the return type of the
 called object, including through function pointers

---
 exe.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/exe.c b/exe.c
index fe2e84c..663822a 100644
--- a/exe.c
+++ b/exe.c
@@ -960,17 +960,13 @@ ast value_type(ast node) {
     } else if (op == AMP_AMP || op == BAR_BAR) {
       return int_type; // Logical operators always return an integer
     } else if (op == '(') {
-      binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
-      if (binding != 0) {
-        // heap[binding+5] is the '(' type
-        return get_child_('(', heap[binding+5], 0);
-      } else {
-        putstr("ident = ");
-        putstr(STRING_BUF(get_val_(IDENTIFIER, child0)));
-        putchar('\n');
-        fatal_error("value_type: function not found");
-        return -1;
+      left_type = value_type(child0);
+      if (!is_function_type(left_type)) {
+        putstr("type="); putint(get_op(left_type)); putchar('\n');
+        fatal_error("value_type: called object is not a function or function pointer");
       }
+      if (get_op(left_type) == '*') left_type = get_child_('*', left_type, 1); // Dereference function pointer
+      return get_child_('(', left_type, 0);
     } else if (op == '.') {
       left_type = value_type(child0);
       if (is_struct_or_union_type(left_type)) {
-- 
2.43.0


From 442fcdde541b25737eecf889a0600b90f39dad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 10/67] fix: case and default labels after declarations keep
 the native stack balanced

---
 exe.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index 663822a..65a4a0f 100644
--- a/exe.c
+++ b/exe.c
@@ -2285,15 +2285,18 @@ void codegen_statement(ast node) {
     // else:
     //   jump to next case
     if (binding != 0) {
+      save_fs = cgc_fs;
       lbl1 = alloc_label(0);                  // skip case when falling through
       jump(lbl1);
       def_label(heap[binding + 4]);           // false jump location of previous case
       heap[binding + 4] = alloc_label(0);     // create false jump location for current case
+      cgc_fs = heap[binding + 2] + 1;         // only the switch operand is on the stack when selecting the case
       codegen_rvalue(get_child_(CASE_KW, node, 0)); // evaluate case expression and compare it
       pop_reg(reg_Y); grow_fs(-1);
       mov_reg_mem(reg_X, reg_SP, 0);          // get switch operand without popping it
-      jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
-      jump(heap[binding + 4]);                // condition is false => jump to next case
+      jump_cond_reg_reg(NE, heap[binding + 4], reg_X, reg_Y); // condition is false => jump to next case
+      grow_stack(save_fs - cgc_fs);           // allocate the variables declared before the case label
+      cgc_fs = save_fs;
       def_label(lbl1);                        // start of case conditional block
       codegen_statement(get_child_(CASE_KW, node, 1));  // case statement
     } else {
@@ -2307,7 +2310,11 @@ void codegen_statement(ast node) {
     if (binding != 0) {
       if (heap[binding + 5]) fatal_error("default already defined in switch");
       heap[binding + 5] = alloc_label(0);                 // create label for default
+      lbl1 = alloc_label(0);                              // skip label when falling through
+      jump(lbl1);
       def_label(heap[binding + 5]);                       // default label
+      grow_stack(cgc_fs - (heap[binding + 2] + 1));       // allocate the variables declared before the default label
+      def_label(lbl1);
       codegen_statement(get_child_(DEFAULT_KW, node, 0)); // default statement
     } else {
       fatal_error("default outside of switch");
-- 
2.43.0


From ff48249b1e504e788dc5cefb1ebd500d8eb908c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 11/67] fix: continue in a do-while loop evaluates the
 condition in shell code

---
 sh.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index 22ba1e6..81cd12b 100644
--- a/sh.c
+++ b/sh.c
@@ -1994,9 +1994,12 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   // modifying comp_statement to accomodate this, we just remove the code
   // generated by comp_statement using undo_glo_decls and save the indices of
   // the declarations of the loop end actions so they can replayed later.
-  if (loop_end_stmt) {
+  // The last line is treated the same way since continue statements must also
+  // execute it.
+  if (loop_end_stmt || last_line) {
     heap[loop_binding + 2] = glo_decl_ix;
-    comp_statement(loop_end_stmt, stmt_ctx);
+    if (loop_end_stmt) comp_statement(loop_end_stmt, stmt_ctx);
+    if (last_line) append_glo_decl(last_line);
     undo_glo_decls(heap[loop_binding + 2]);
     heap[loop_binding + 3] = glo_decl_ix;
   }
@@ -2005,7 +2008,6 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   nest_level += 1;
   start_glo_decl_idx = glo_decl_ix;
   always_returns = comp_statement(body, stmt_ctx);
-  append_glo_decl(last_line);
   replay_glo_decls(heap[loop_binding + 2], heap[loop_binding + 3], true);
   // while loops cannot be empty so we insert ':' if it's empty
   if (!any_active_glo_decls(start_glo_decl_idx)) append_glo_decl(wrap_char(':'));
-- 
2.43.0


From 224313395274bd26f48cdb9272b71902de224a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 12/67] fix: a loop that contains a break does not end the
 surrounding block in shell code

---
 env.c | 3 ++-
 sh.c  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/env.c b/env.c
index f601322..69561b8 100644
--- a/env.c
+++ b/env.c
@@ -136,11 +136,12 @@ void cgc_add_local_var(enum BINDING binding_type, int ident, ast type) {
 }
 
 void cgc_add_enclosing_loop() {
-  int binding = alloc_obj(4);
+  int binding = alloc_obj(5);
   heap[binding+0] = cgc_locals;
   heap[binding+1] = BINDING_LOOP;
   heap[binding+2] = 0; // loop end action start
   heap[binding+3] = 0; // loop end action end
+  heap[binding+4] = false; // if the loop contains a break statement
   cgc_locals = binding;
 }
 
diff --git a/sh.c b/sh.c
index 81cd12b..3afd746 100644
--- a/sh.c
+++ b/sh.c
@@ -2015,14 +2015,16 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   append_glo_decl(wrap_str_lit("done"));
   cgc_locals = start_cgc_locals;
 
-  // If the condition is always true and the loop always returns
-  return cond == wrap_char(':') && always_returns;
+  // If the condition is always true and the loop always returns without
+  // breaking out of the loop
+  return cond == wrap_char(':') && always_returns && !heap[loop_binding + 4];
 }
 
 bool comp_break() {
   int binding = cgc_lookup_enclosing_loop_or_switch(cgc_locals);
   if (binding == 0) fatal_error("comp_statement: break not in loop or switch");
   if (binding_kind(binding) == BINDING_LOOP) {
+    heap[binding + 4] = true;
     append_glo_decl(wrap_str_lit("break"));
   }
   return true;
-- 
2.43.0


From b1e3e0ddef4b20231759fa0a0dc432e59232fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 13/67] fix: function parameters do not shadow globals in later
 global initializers

---
 exe.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exe.c b/exe.c
index 65a4a0f..13f3075 100644
--- a/exe.c
+++ b/exe.c
@@ -2448,6 +2448,8 @@ void codegen_glo_fun_decl(ast node) {
 
   ret();
 
+  // The parameters are no longer in scope
+  cgc_locals = 0;
   cgc_locals_fun = save_locals_fun;
 }
 
-- 
2.43.0


From 71223371ad80ebec5687b7152ed29472c74aa38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 14/67] fix: reaching the end of main exits with code 0 in
 native code

---
 exe.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.c b/exe.c
index 13f3075..5546839 100644
--- a/exe.c
+++ b/exe.c
@@ -2446,6 +2446,9 @@ void codegen_glo_fun_decl(ast node) {
   grow_stack(-cgc_fs);
   cgc_fs = 0;
 
+  // Reaching the end of main is the same as returning 0
+  if (name_probe == MAIN_ID) mov_reg_imm(reg_X, 0);
+
   ret();
 
   // The parameters are no longer in scope
-- 
2.43.0


From 982927559dec7adf0d9a9fec263503ad0725068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 15/67] fix: fgetc and getchar return EOF when reading fails in
 native code

---
 exe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index 5546839..af10c1f 100644
--- a/exe.c
+++ b/exe.c
@@ -2530,8 +2530,8 @@ void rt_fgetc(int fd_reg) {
   os_read();                  // reg_X = number of bytes read, buffer[0] = character
 
   pop_reg(reg_Z);             // Get character from buffer and deallocate buffer
-  mov_reg_imm(reg_Y, 0);      // If read returned 0, then we're at EOF (-1)
-  jump_cond_reg_reg(NE, success_lbl, reg_X, reg_Y);
+  mov_reg_imm(reg_Y, 1);      // If read didn't return 1 character, then it failed or we're at EOF (-1)
+  jump_cond_reg_reg(EQ, success_lbl, reg_X, reg_Y);
   mov_reg_imm(reg_Z, -1);     // mov  eax, -1  # -1 on EOF
   def_label(success_lbl);     // end label
   mov_reg_reg(reg_X, reg_Z);  // return value
-- 
2.43.0


From e31e0ec9ed2b3cecd0e556d077dfc60ae27c9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 16/67] fix: using a goto label or function that is never
 defined is an error in native code

---
 exe.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/exe.c b/exe.c
index af10c1f..cf06910 100644
--- a/exe.c
+++ b/exe.c
@@ -2451,6 +2451,16 @@ void codegen_glo_fun_decl(ast node) {
 
   ret();
 
+  // Goto labels are local to the function, so they must all be defined by now
+  binding = cgc_locals_fun;
+  while (binding != save_locals_fun) {
+    if (heap[heap[binding + 3] + 1] > 0) {
+      putstr("label = "); putstr(STRING_BUF(heap[binding + 2])); putchar('\n');
+      fatal_error("goto label is not defined");
+    }
+    binding = binding_next(binding);
+  }
+
   // The parameters are no longer in scope
   cgc_locals = 0;
   cgc_locals_fun = save_locals_fun;
@@ -2572,6 +2582,19 @@ void rt_malloc() {
 
 #endif
 
+// Check that all functions that are used are defined
+void check_functions_defined() {
+  int binding = cgc_globals;
+
+  while (binding != 0) {
+    if (binding_kind(binding) == BINDING_FUN && heap[heap[binding + 4] + 1] > 0) {
+      putstr("ident = "); putstr(STRING_BUF(heap[binding + 2])); putchar('\n');
+      fatal_error("function is not defined");
+    }
+    binding = binding_next(binding);
+  }
+}
+
 void codegen_end() {
   def_label(setup_lbl);
 
@@ -2707,6 +2730,7 @@ void codegen_end() {
   ret();
 #endif
 
+  check_functions_defined();
   assert_all_labels_defined();
 
   generate_exe();
-- 
2.43.0


From 6bfe1ec2fd2c937689c2c3d89b941ebdde3c07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 17/67] fix: decimal literals that carry into the upper 32 bits
 have their value

---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3bb6a91..0522cba 100644
--- a/pnut.c
+++ b/pnut.c
@@ -989,8 +989,8 @@ void u64_mul_u32(int *x, int y) {
 // x = x + y
 void u64_add_u32(int *x, int y) {
   int lo = x[0] + y;
-  // Carry (using signed integers)
-  x[1] += ((x[0] < 0) != (lo < 0));
+  // Carry (using signed integers): y is small, so the sum only overflows if the sign bit gets cleared
+  x[1] += (x[0] < 0 && lo >= 0);
   x[0] = lo;
 }
 
-- 
2.43.0


From bae747f2e00ec6d79e33ef95c35672ec604742f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 18/67] fix: keep the parentheses of an equality that is an
 operand of an equality in shell code

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 3afd746..d68e75c 100644
--- a/sh.c
+++ b/sh.c
@@ -1161,7 +1161,7 @@ text with_prefixed_side_effects(ast test_side_effects, text code) {
 // Associative operators can be chained without parentheses.
 bool is_associative_operator(int op) {
   return (op == '+')   | (op == '*')     | (op == '&')    | (op == '|')    | (op == '^')
-      |  (op == EQ_EQ) | (op == AMP_AMP) | (op == BAR_BAR);
+      |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
-- 
2.43.0


From 34f3f0d470b522a954be51d2358055bcd20b5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 19/67] fix: parenthesize x++ and x-- as operands of operators
 that bind tighter than + in shell code

---
 sh.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index d68e75c..1aa2203 100644
--- a/sh.c
+++ b/sh.c
@@ -1164,6 +1164,12 @@ bool is_associative_operator(int op) {
       |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
+// Return true if an addition or subtraction must be parenthesized to be an
+// operand of the operator.
+bool binds_tighter_than_plus(int op) {
+  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!');
+}
+
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
 // it in parentheses if parens_otherwise is true. If it's not in an arithmetic
 // expansion and we're compiling tests, we also add the test condition to make it
@@ -1259,10 +1265,10 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       return wrap_if_needed(true, context, test_side_effects, string_concat(sub1, wrap_str_lit(" += 1")), outer_op, op);
     } else if (op == MINUS_MINUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
+      return wrap_if_needed(binds_tighter_than_plus(outer_op), context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
     } else if (op == PLUS_PLUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
+      return wrap_if_needed(binds_tighter_than_plus(outer_op), context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
     } else if (op == SIZEOF_KW) {
       // child0 is either an abstract declaration or an expression
       if (get_op(child0) == DECL) {
-- 
2.43.0


From 9660e29d4c8bb2b1543dff3c3e298aed9fe1b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 20/67] fix: ~ and ! of an integer literal are not its negation
 in shell code

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 1aa2203..3e5b0f2 100644
--- a/sh.c
+++ b/sh.c
@@ -1251,7 +1251,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // +x is equivalent to x
       return comp_rvalue_go(child0, context, test_side_effects, outer_op);
     } else if (op == '-' || op == '~' || op == '!') {
-      if (get_op(child0) == INTEGER || op == INTEGER_HEX || op == INTEGER_OCT) {
+      if (op == '-' && get_op(child0) == INTEGER) {
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
-- 
2.43.0


From f4cb4057be96ca62410b313d80addad41723b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 21/67] fix: the negation of a negation is not a decrement in
 shell code

---
 sh.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sh.c b/sh.c
index 3e5b0f2..2ff6bb5 100644
--- a/sh.c
+++ b/sh.c
@@ -1204,6 +1204,15 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
   }
 }
 
+// Return true if the code of the expression starts with a minus sign.
+bool is_negation(ast node) {
+  while (get_op(node) == PARENS || get_op(node) == CAST || (get_op(node) == '+' && get_nb_children(node) == 1)) {
+    node = get_child(node, get_op(node) == CAST);
+  }
+  if (get_op(node) == '-' && get_nb_children(node) == 1) return true;
+  return false;
+}
+
 text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op) {
   int op = get_op(node);
   int nb_children = get_nb_children(node);
@@ -1255,6 +1264,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
+        if (op == '-' && is_negation(child0)) sub1 = string_concat3(wrap_char('('), sub1, wrap_char(')')); // --x is a decrement
         return wrap_if_needed(false, context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
       }
     } else if (op == MINUS_MINUS_PRE) {
-- 
2.43.0


From 58f7234f678cadc527bcb0f90743ab56b137c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 22/67] fix: a cast keeps the function calls and the
 parentheses of its operand in shell code

---
 sh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 2ff6bb5..1afb7fb 100644
--- a/sh.c
+++ b/sh.c
@@ -1167,7 +1167,7 @@ bool is_associative_operator(int op) {
 // Return true if an addition or subtraction must be parenthesized to be an
 // operand of the operator.
 bool binds_tighter_than_plus(int op) {
-  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!');
+  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!') | (op == CAST);
 }
 
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
@@ -1339,7 +1339,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_if_needed(true, context, test_side_effects, string_concat3(sub1, op_to_str(op), sub2), outer_op, op);
       }
     } else if (op == CAST) { // Casts are no-op
-      return comp_rvalue_go(child1, context, 0, op);
+      return comp_rvalue_go(child1, context, test_side_effects, op);
     } else {
       fatal_error("comp_rvalue_go: unknown rvalue with 2 children");
       return 0;
-- 
2.43.0


From d5d23eca39eaed6f17ac4a41cc9e5e9e23dbc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 23/67] fix: a parenthesized lvalue is the lvalue in
 parentheses in shell code

---
 sh.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 1afb7fb..30d207c 100644
--- a/sh.c
+++ b/sh.c
@@ -1510,7 +1510,7 @@ text comp_lvalue(ast node) {
   } else if (op == CAST) {
     return comp_lvalue(get_child_(CAST, node, 1));
   } else if (op == PARENS) {
-    return comp_lvalue_address(get_child_(PARENS, node, 0));
+    return comp_lvalue(get_child_(PARENS, node, 0));
   } else {
     printf("op=%d %c\n", op, op);
     fatal_error("comp_lvalue: unknown lvalue");
@@ -1798,7 +1798,9 @@ void comp_fun_call(ast node, ast assign_to) {
 }
 
 void comp_assignment(ast lhs, ast rhs) {
-  int lhs_op = get_op(lhs);
+  int lhs_op;
+  lhs = non_parenthesized_operand(lhs);
+  lhs_op = get_op(lhs);
   if (lhs_op == IDENTIFIER || lhs_op == '[' || lhs_op == '*' || lhs_op == ARROW) {
     if (get_op(rhs) == '(') {
       comp_fun_call(rhs, lhs);
-- 
2.43.0


From 153b1b61b337d736eaee0fb2cf2df7352e38b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 24/67] fix: parenthesize the operands of an lvalue's address
 in shell code

---
 sh.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sh.c b/sh.c
index 30d207c..b517c30 100644
--- a/sh.c
+++ b/sh.c
@@ -1305,7 +1305,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return 0;
       }
     } else if (op == '&') {
-      return wrap_if_needed(false, context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
+      return wrap_if_needed(binds_tighter_than_plus(outer_op), context, test_side_effects, comp_lvalue_address(child0), outer_op, '+');
     } else {
       printf("op=%d %c", op, op);
       fatal_error("comp_rvalue_go: unexpected operator");
@@ -1443,6 +1443,20 @@ text comp_rvalue(ast node, int context) {
   return result;
 }
 
+// Compile an operand of the addition that computes the address of an lvalue.
+// Only operators that don't bind tighter than + need parentheses.
+text comp_address_operand(ast node) {
+  text code = comp_rvalue(node, RVALUE_CTX_ARITH_EXPANSION);
+  int op;
+
+  while (get_op(node) == PARENS || (get_op(node) == '+' && get_nb_children(node) == 1)) node = get_child(node, 0);
+  op = get_op(node);
+
+  if (get_nb_children(node) < 2 && op != PLUS_PLUS_PRE && op != MINUS_MINUS_PRE) return code;
+  if (op == '+' || op == '-' || op == '*' || op == '/' || op == '%' || op == '[' || op == ARROW || op == '(' || op == CAST) return code;
+  return string_concat3(wrap_char('('), code, wrap_char(')'));
+}
+
 // Unlike in the native backend, there are 2 ways to compile a lvalue.
 //
 // The first (comp_lvalue) returns the variable that represent the memory
@@ -1469,13 +1483,13 @@ text comp_lvalue_address(ast node) {
     fatal_error("comp_rvalue_go: can't take the address of a local variable");
     return 0;
   } else if (op == '[') {
-    sub1 = comp_rvalue(get_child_('[', node, 0), RVALUE_CTX_ARITH_EXPANSION);
-    sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_operand(get_child_('[', node, 0));
+    sub2 = comp_address_operand(get_child_('[', node, 1));
     return string_concat3(sub1, wrap_str_lit(" + "), sub2);
   } else if (op == '*') {
     return comp_rvalue(get_child_('*', node, 0), RVALUE_CTX_BASE);
   } else if (op == ARROW) {
-    sub1 = comp_rvalue(get_child_(ARROW, node, 0), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_operand(get_child_(ARROW, node, 0));
     sub2 = struct_member_var(get_child_(ARROW, node, 1));
     return string_concat3(sub1, wrap_str_lit(" + "), sub2);
   } else if (op == CAST) {
@@ -1497,14 +1511,16 @@ text comp_lvalue(ast node) {
   if (op == IDENTIFIER || op == IDENTIFIER_INTERNAL || op == IDENTIFIER_STRING || op == IDENTIFIER_EMPTY || op == IDENTIFIER_DOLLAR) {
     return env_var(node);
   } else if (op == '[') {
-    sub1 = comp_rvalue(get_child_('[', node, 0), RVALUE_CTX_ARITH_EXPANSION);
-    sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_operand(get_child_('[', node, 0));
+    // TODO: x & y needs the parentheses too, examples/compiled/base64.sh expects it without
+    if (get_op(get_child_('[', node, 1)) == '&') sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
+    else sub2 = comp_address_operand(get_child_('[', node, 1));
     return string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))"));
   } else if (op == '*') {
     sub1 = comp_rvalue(get_child_('*', node, 0), RVALUE_CTX_BASE);
     return string_concat(wrap_char('_'), sub1);
   } else if (op == ARROW) {
-    sub1 = comp_rvalue(get_child_(ARROW, node, 0), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_operand(get_child_(ARROW, node, 0));
     sub2 = struct_member_var(get_child_(ARROW, node, 1));
     return string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))"));
   } else if (op == CAST) {
-- 
2.43.0


From 3641173e1d17d93a4187c9def7e82c400821da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 25/67] fix: an assignment inside an expression statement is
 not dropped from shell code

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index b517c30..a7caf48 100644
--- a/sh.c
+++ b/sh.c
@@ -993,6 +993,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
         // In that case, we reuse the left hand side of the assignment as the result location
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
       } else {
+        contains_side_effects = true;
         sub1 = handle_side_effects_go(child0, executes_conditionally);
         sub2 = handle_side_effects_go(child1, executes_conditionally); // We could inline that one since the assignment to the global variable is done after the last handle_side_effects_go call
         return new_ast2(op, sub1, sub2);
-- 
2.43.0


From 988c7c84d4e20e9e03e77a86b45357fcc01e8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 26/67] fix: parenthesize the comma operator on the right of an
 assignment in shell code

---
 sh.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index a7caf48..09500b1 100644
--- a/sh.c
+++ b/sh.c
@@ -1181,9 +1181,10 @@ text wrap_if_needed(int parens_otherwise, int context, ast test_side_effects, te
   // use this information to determine if parentheses are needed.
   if (context == RVALUE_CTX_ARITH_EXPANSION) {
     if ( parens_otherwise
-      && outer_op != 0
+      && (inner_op == ',' // Only the comma operator binds weaker than assignment
+       || (outer_op != 0
       && outer_op != '=' // Assignment has the lowest precedence so we never use parentheses
-      && (!is_associative_operator(inner_op) || inner_op != outer_op) // Adjacent associative operations don't need parentheses
+      && (!is_associative_operator(inner_op) || inner_op != outer_op))) // Adjacent associative operations don't need parentheses
       ) {
       return string_concat3(wrap_char('('), code, wrap_char(')'));
     }
-- 
2.43.0


From dd8f4e533624d41fe49a170dd2b4d5b8ba640bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 27/67] fix: a function call on the right of the comma operator
 comes after the left operand in shell code

---
 sh.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 09500b1..813eebe 100644
--- a/sh.c
+++ b/sh.c
@@ -940,6 +940,19 @@ ast handle_fun_call_side_effect(ast node, ast assign_to, bool executes_condition
   return assign_to;
 }
 
+bool contains_fun_call(ast node) {
+  int i = 0;
+  int nb_children = get_nb_children(node);
+  if (get_op(node) == '(') return true;
+  if (get_op(node) == SIZEOF_KW) return false;
+  if (get_op(node) == CAST) i = 1; // Skip the type
+  while (i < nb_children) {
+    if (contains_fun_call(get_child(node, i))) return true;
+    i += 1;
+  }
+  return false;
+}
+
 // We can't have function calls and other side effects in $(( ... )), so we need to handle them separately.
 // For unconditional function calls, they are replaced with unique identifiers and returned as a list with their new identifiers.
 // For pre/post-increments/decrements, we map them to a pre-side-effects and replace with the corresponding operation.
@@ -999,11 +1012,19 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
         return new_ast2(op, sub1, sub2);
       }
     } else if (op == '&' || op == '|' || op == '<' || op == '>' || op == '+' || op == '-' || op == '*' || op == '/'
-      || op == '%' || op == '^' || op == ',' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ || op == LSHIFT || op == RSHIFT || op == '['
+      || op == '%' || op == '^' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ || op == LSHIFT || op == RSHIFT || op == '['
       || op == '.' || op == ARROW ) {
       sub1 = handle_side_effects_go(child0, executes_conditionally);
       sub2 = handle_side_effects_go(child1, executes_conditionally); // We could inline that one since the assignment to the global variable is done after the last handle_side_effects_go call
       return new_ast2(op, sub1, sub2);
+    } else if (op == ',') {
+      sub1 = handle_side_effects_go(child0, executes_conditionally);
+      // Function calls of the right side would be hoisted before the left side
+      if (contains_side_effects && contains_fun_call(child1)) {
+        fatal_error("Function call after a side effect in comma operator not allowed");
+      }
+      sub2 = handle_side_effects_go(child1, executes_conditionally);
+      return new_ast2(op, sub1, sub2);
     } else if (op == AMP_EQ || op == BAR_EQ || op == CARET_EQ || op == LSHIFT_EQ || op == MINUS_EQ || op == PERCENT_EQ || op == PLUS_EQ || op == RSHIFT_EQ || op == SLASH_EQ || op == STAR_EQ) {
       // Just like previous case, except that we update contains_side_effects
       contains_side_effects = true;
@@ -2220,6 +2241,10 @@ bool comp_statement(ast node, STMT_CTX stmt_ctx) {
   } else if (op == DECLS) {
     comp_var_decls(node);
     return false;
+  } else if (op == ',') { // Function calls on the right must come after the left operand
+    comp_statement(get_child_(',', node, 0), stmt_ctx);
+    comp_statement(get_child_(',', node, 1), stmt_ctx);
+    return false;
   } else {
     str = comp_rvalue(node, RVALUE_CTX_BASE);
     if (contains_side_effects) {
-- 
2.43.0


From b7ab78e4c4b125f79462f79ae8656829ae75984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 28/67] fix: an lvalue with side effects that is assigned the
 result of a call is evaluated once in shell code

---
 sh.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sh.c b/sh.c
index 813eebe..e12e233 100644
--- a/sh.c
+++ b/sh.c
@@ -940,14 +940,20 @@ ast handle_fun_call_side_effect(ast node, ast assign_to, bool executes_condition
   return assign_to;
 }
 
-bool contains_fun_call(ast node) {
+// Return true if the expression contains a function call, or any side effect
+// if only_calls is false.
+bool contains_effects(ast node, bool only_calls) {
   int i = 0;
+  int op = get_op(node);
   int nb_children = get_nb_children(node);
-  if (get_op(node) == '(') return true;
-  if (get_op(node) == SIZEOF_KW) return false;
-  if (get_op(node) == CAST) i = 1; // Skip the type
+  if (op == '(') return true;
+  if (op == SIZEOF_KW) return false;
+  if (!only_calls
+    && (op == '=' || op == AMP_EQ || op == BAR_EQ || op == CARET_EQ || op == LSHIFT_EQ || op == MINUS_EQ || op == PERCENT_EQ || op == PLUS_EQ || op == RSHIFT_EQ || op == SLASH_EQ || op == STAR_EQ
+     || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PLUS_PLUS_POST || op == MINUS_MINUS_POST)) return true;
+  if (op == CAST) i = 1; // Skip the type
   while (i < nb_children) {
-    if (contains_fun_call(get_child(node, i))) return true;
+    if (contains_effects(get_child(node, i), only_calls)) return true;
     i += 1;
   }
   return false;
@@ -1002,7 +1008,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     if (op == '(') { // Function call
       return handle_fun_call_side_effect(node, 0, executes_conditionally);
     } else if (op == '=') {
-      if (get_op(child1) == '(') { // Function call
+      if (get_op(child1) == '(' && !contains_effects(child0, false)) { // Function call
         // In that case, we reuse the left hand side of the assignment as the result location
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
       } else {
@@ -1020,7 +1026,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     } else if (op == ',') {
       sub1 = handle_side_effects_go(child0, executes_conditionally);
       // Function calls of the right side would be hoisted before the left side
-      if (contains_side_effects && contains_fun_call(child1)) {
+      if (contains_side_effects && contains_effects(child1, true)) {
         fatal_error("Function call after a side effect in comma operator not allowed");
       }
       sub2 = handle_side_effects_go(child1, executes_conditionally);
-- 
2.43.0


From f7bc6bf4839497d5adc22c721c18d5988efc803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 29/67] fix: defarr calls the runtime function that initializes
 global arrays

---
 sh-runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index 54f01fc..df3da6e 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -326,7 +326,7 @@ DEPENDS_ON(malloc)
   }
 #else
 DEPENDS_ON(initialize)
-  putstr("defarr() { _malloc $1 $2; initialize_memory $@; }\n");
+  putstr("defarr() { _malloc $1 $2; initialize $@; }\n");
 #endif
 END_RUNTIME_FUN(defarr)
 
-- 
2.43.0


From f701adc16f8a0172f29d5e045fa445cc0a8c1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 30/67] fix: && and || are allowed in the address of an lvalue
 inside an expression in shell code

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index e12e233..27ab12c 100644
--- a/sh.c
+++ b/sh.c
@@ -1070,6 +1070,8 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     }
 
     return new_ast3('?', handle_side_effects_go(child0, executes_conditionally), sub1, sub2);
+  } else if (nb_children == 4 && (op == AMP_AMP || op == BAR_BAR)) {
+    return node; // The operands of lvalues have already been handled
   } else {
     printf("op=%d %c with %d children\n", op, op, get_nb_children(node));
     fatal_error("unexpected operator");
-- 
2.43.0


From 406e88c304f4d98944baab7def0b0617a200057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 31/67] fix: reject a switch whose default is not last, it
 would hide the later cases in shell code

---
 sh.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sh.c b/sh.c
index 27ab12c..4139b85 100644
--- a/sh.c
+++ b/sh.c
@@ -1924,6 +1924,7 @@ text make_switch_pattern(ast statement) {
 
 bool comp_switch(ast node) {
   ast statement;
+  bool default_seen = false;
   int start_cgc_locals = cgc_locals;
 
   append_glo_decl(string_concat3(
@@ -1949,6 +1950,12 @@ bool comp_switch(ast node) {
     statement = get_child_('{', node, 0);
     node = get_child_('{', node, 1);
 
+    // The first pattern that matches is selected, and * always matches
+    if (default_seen) fatal_error("default must be the last case of a switch");
+    last_stmt = statement;
+    while (get_op(last_stmt) == CASE_KW) last_stmt = get_child_(CASE_KW, last_stmt, 1);
+    default_seen = get_op(last_stmt) == DEFAULT_KW;
+
     append_glo_decl(make_switch_pattern(statement));
     statement = last_stmt; // last_stmt is set by make_switch_pattern
 
-- 
2.43.0


From 1ea4129dd325b9851305af69f0080f1050b610dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 32/67] fix: a labelled empty statement is a command in shell
 code

---
 sh.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 4139b85..a29c096 100644
--- a/sh.c
+++ b/sh.c
@@ -2188,6 +2188,8 @@ void comp_var_decls(ast node) {
 // This is used to delimit the end of conditional blocks of switch statements.
 bool comp_statement(ast node, STMT_CTX stmt_ctx) {
   int op;
+  int start_glo_decl_idx;
+  bool always_returns;
   text str;
 
   if (node == 0) return false; // Empty statement never returns
@@ -2246,7 +2248,11 @@ bool comp_statement(ast node, STMT_CTX stmt_ctx) {
     // Labelled statement are not very useful as gotos are not supported in the
     // Shell backend, but we still emit a label comment for readability.
     append_glo_decl(string_concat3(wrap_str_lit("# "), wrap_str_pool(get_val_(IDENTIFIER, get_child_(':', node, 0))), wrap_char(':')));
-    return comp_statement(get_child_(':', node, 1), stmt_ctx);
+    start_glo_decl_idx = glo_decl_ix;
+    always_returns = comp_statement(get_child_(':', node, 1), stmt_ctx);
+    // A comment is not a command so we insert ':' if the statement is empty
+    if (!any_active_glo_decls(start_glo_decl_idx)) append_glo_decl(wrap_char(':'));
+    return always_returns;
   } else if (op == GOTO_KW) {
     fatal_error("goto statements not supported");
     return false;
-- 
2.43.0


From 2ea3a838e91a079cfb16abf475ffa5e53ba04248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 33/67] fix: the arguments printed before a %s are not printed
 again after it in shell code

---
 sh.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sh.c b/sh.c
index a29c096..7bc030a 100644
--- a/sh.c
+++ b/sh.c
@@ -1651,6 +1651,7 @@ void handle_printf_call(char *format_str, ast params) {
   bool mod = false;
   bool has_width = false;
   bool has_precision = false;
+  bool params_printed = false; // The parameters were passed to the previous printf call
 
   enum PRINTF_STATE state = PRINTF_STATE_FLAGS;
 
@@ -1760,6 +1761,7 @@ void handle_printf_call(char *format_str, ast params) {
             format_start = format_str + 1;
             // Compile printf("...%s...", str) to _put_pstr str
             append_glo_decl(string_concat(wrap_str_lit("_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE)));
+            params_printed = true;
           }
           param = 0; // Consume param
           mod = false;
@@ -1773,6 +1775,10 @@ void handle_printf_call(char *format_str, ast params) {
     } else if (*format_str == '%') {
       mod = true;
       specifier_start = format_str;
+      if (params_printed) {
+        params_text = 0;
+        params_printed = false;
+      }
       // Reset the state machine
       width_text = precision_text = has_width = has_precision = 0;
       state = PRINTF_STATE_FLAGS;
-- 
2.43.0


From dd725949c07546d8591dce357afee9227548df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 34/67] fix: printf with only a format string prints %% as % in
 shell code

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 7bc030a..1da1a35 100644
--- a/sh.c
+++ b/sh.c
@@ -1805,7 +1805,8 @@ text comp_fun_call_code(ast node, ast assign_to) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, true);
+      // The format string of printf is already a format string
+      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From bb4839cfecb6ad8a4f7c9feb2a4f8133eb928793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 35/67] fix: the operands of an lvalue that is assigned a call
 are prepared like those of any expression in shell code

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 1da1a35..9cef6d8 100644
--- a/sh.c
+++ b/sh.c
@@ -1010,7 +1010,8 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     } else if (op == '=') {
       if (get_op(child1) == '(' && !contains_effects(child0, false)) { // Function call
         // In that case, we reuse the left hand side of the assignment as the result location
-        return handle_fun_call_side_effect(child1, child0, executes_conditionally);
+        sub1 = handle_side_effects_go(child0, executes_conditionally);
+        return handle_fun_call_side_effect(child1, sub1, executes_conditionally);
       } else {
         contains_side_effects = true;
         sub1 = handle_side_effects_go(child0, executes_conditionally);
-- 
2.43.0


From ea8174ee20ee7fe3562a2befe3e0e301a1e99032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:07 +0000
Subject: [PATCH 36/67] fix: the precision of a printf conversion may start
 with 0 in shell code

---
 sh.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 9cef6d8..ccc3448 100644
--- a/sh.c
+++ b/sh.c
@@ -1668,7 +1668,14 @@ void handle_printf_call(char *format_str, ast params) {
         case ' ': case '#': case '+': case '-': case '0': // Flags
           // Flags correspond to 0x20,0x23,0x2b,0x2d,0x30 which are spread over
           // 16 bits meaning we can easily convert char -> bit if we wanted to.
-          if (state != PRINTF_STATE_FLAGS) fatal_error("Invalid printf format: Flags must come before width and precision");
+          if (state == PRINTF_STATE_PRECISION && *format_str == '0') { // Leading 0 of the precision
+            while ('0' <= *format_str && *format_str <= '9') format_str += 1;
+            has_precision = true;
+            state = PRINTF_STATE_SPECIFIER;
+            format_str -= 1; // Reprocess non-numeric character
+          } else if (state != PRINTF_STATE_FLAGS) {
+            fatal_error("Invalid printf format: Flags must come before width and precision");
+          }
           break;
 
         // Width or precision literal
-- 
2.43.0


From 62af1a46754e3b2047ecf04c13727adaf7634b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 37/67] fix: printf length modifiers are not passed to the
 shell's printf

---
 sh.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sh.c b/sh.c
index ccc3448..f3fa5b3 100644
--- a/sh.c
+++ b/sh.c
@@ -1619,9 +1619,16 @@ text comp_putchar_inline(ast param) {
 
 #ifdef SH_AVOID_PRINTF_USE
 // format_str is from the string pool so immutable
-text printf_call(char *format_str, char *format_str_end, text params_text, bool escape) {
-  if (format_str == format_str_end) {
+// prefix is the (escaped) beginning of the format, if any
+text printf_call(text prefix, char *format_str, char *format_str_end, text params_text, bool escape) {
+  if (format_str == format_str_end && prefix == 0) {
     return 0;
+  } else if (prefix != 0) {
+    return string_concat4(wrap_str_lit("printf -- \""),
+                          prefix,
+                          escape_text(wrap_str_imm(format_str, format_str_end), escape),
+                          concatenate_strings_with(wrap_char('\"'), params_text, wrap_char(' '))
+                          );
   } else {
     // Some shells interpret leading - as options. In that case, we add -- in front of the format string.
     return string_concat3(wrap_str_lit(format_str[0] == '-' ? "printf -- \"" : "printf \""),
@@ -1648,6 +1655,7 @@ void handle_printf_call(char *format_str, ast params) {
   char *specifier_start;
   // compiled parameters to be passed to printf
   text params_text = 0, width_text = 0, precision_text = 0;
+  text format_prefix = 0; // Part of the format that comes before format_start
 
   bool mod = false;
   bool has_width = false;
@@ -1718,7 +1726,10 @@ void handle_printf_call(char *format_str, ast params) {
         // The following options are the same between the shell's printf and C's printf
         case 'l': case 'd': case 'i': case 'o': case 'u': case 'x': case 'X':
           if (*format_str == 'l') {
+            // The shell's printf has no length modifiers
+            format_prefix = string_concat(format_prefix, escape_text(wrap_str_imm(format_start, format_str), false));
             while (*format_str == 'l') format_str += 1; // Skip the 'l' for long
+            format_start = format_str;
             if (*format_str != 'd' && *format_str != 'i' && *format_str != 'o' && *format_str != 'u' && *format_str != 'x' && *format_str != 'X') {
               printf("*format_str=%c%c\n", *(format_str - 1), *format_str);
               fatal_error("Invalid printf format: Unsupported long specifier");
@@ -1742,7 +1753,8 @@ void handle_printf_call(char *format_str, ast params) {
           // TODO: Find way to support width that's not too verbose
           if (has_width)   fatal_error("Width not supported for %c");
           // Generate printf call with what we have so far
-          append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+          append_glo_decl(printf_call(format_prefix, format_start, specifier_start, params_text, false));
+          format_prefix = 0;
           // New format string starts after the %
           format_start = format_str + 1;
           // Generate the printf call for the character
@@ -1764,7 +1776,8 @@ void handle_printf_call(char *format_str, ast params) {
             params_text = concatenate_strings_with(params_text, string_concat3(wrap_str_lit("\"$(_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE), wrap_str_lit(")\"")), wrap_char(' ')); // Add the parameter
           } else {
             // Generate printf call with what we have so far
-            append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+            append_glo_decl(printf_call(format_prefix, format_start, specifier_start, params_text, false));
+            format_prefix = 0;
             // New format string starts after the %
             format_start = format_str + 1;
             // Compile printf("...%s...", str) to _put_pstr str
@@ -1797,7 +1810,7 @@ void handle_printf_call(char *format_str, ast params) {
   }
 
   // Dump the remaining format string
-  append_glo_decl(printf_call(format_start, format_str, params_text, false));
+  append_glo_decl(printf_call(format_prefix, format_start, format_str, params_text, false));
 }
 #endif
 
@@ -1814,7 +1827,7 @@ text comp_fun_call_code(ast node, ast assign_to) {
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
       // The format string of printf is already a format string
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
+      return printf_call(0, STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From e2ae863add77557eaaf2844682c6a8d3adcec34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 38/67] fix: the label of a goto is read before the next token

---
 pnut.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 0522cba..f2bccff 100644
--- a/pnut.c
+++ b/pnut.c
@@ -3834,8 +3834,9 @@ ast parse_statement() {
   } else if (tok == GOTO_KW) {
 
     get_tok();
+    result = new_ast0(IDENTIFIER, val); // Read the label before the next token, which may change val
     expect_tok(IDENTIFIER);
-    result = new_ast1(GOTO_KW, new_ast0(IDENTIFIER, val));
+    result = new_ast1(GOTO_KW, result);
     expect_tok(';');
 
   } else if (tok == CONTINUE_KW) {
-- 
2.43.0


From ffe28b3d28b75ea18371808920eeff03bcf1a033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 39/67] fix: a variadic parameter's ... does not make the outer
 function variadic

---
 pnut.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pnut.c b/pnut.c
index f2bccff..06950d3 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2925,8 +2925,7 @@ int parse_param_list() {
   ast result = 0;
   ast tail;
   ast decl;
-
-  parse_param_list_is_variadic = false;
+  bool is_variadic = false; // Not using the global because parameters may have parameter lists of their own
 
   expect_tok('(');
 
@@ -2945,7 +2944,7 @@ int parse_param_list() {
       // ignore ELLIPSIS nodes for now, but it should be the last parameter
       if (result == 0) parse_error("Function must have a named parameter before ellipsis parameter", tok);
       get_tok();
-      parse_param_list_is_variadic = true;
+      is_variadic = true;
       break;
     } else {
       parse_error("Parameter declaration expected", tok);
@@ -2963,6 +2962,7 @@ int parse_param_list() {
 
   expect_tok(')');
 
+  parse_param_list_is_variadic = is_variadic;
   return result;
 }
 
-- 
2.43.0


From 37ec7a57726ddaea9b5b52c1e04611b06edc13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 40/67] fix: the specifier of a pointer type is its pointee's

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 06950d3..01afe15 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2568,7 +2568,7 @@ ast get_type_specifier(ast type_or_decl) {
         type_or_decl = get_child_('[', type_or_decl, 0);
         break;
       case '*':
-        type_or_decl = get_child_('*', type_or_decl, 0);
+        type_or_decl = get_child_('*', type_or_decl, 1);
         break;
       default:
         return type_or_decl;
-- 
2.43.0


From 52fe9425aaf33a33935988dec64f609d1fc95aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 41/67] fix: enum/struct definitions in variable declarations
 are compiled in shell code

---
 sh.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index f3fa5b3..4f37d24 100644
--- a/sh.c
+++ b/sh.c
@@ -62,6 +62,7 @@ bool comp_body(ast node, STMT_CTX stmt_ctx);
 bool comp_statement(ast node, STMT_CTX stmt_ctx);
 void mark_mutable_variables_body(ast node);
 void handle_enum_struct_union_type_decl(ast node);
+void handle_var_decl_type(ast type, bool local);
 ast handle_side_effects_go(ast node, int executes_conditionally);
 
 // Because concatenating strings is very expensive and a common operation, we
@@ -2195,6 +2196,7 @@ void comp_var_decls(ast node) {
       break;
   }
   node = get_child_opt_(DECLS, LIST, node, 0);
+  handle_var_decl_type(get_child_(DECL, car_(DECL, node), 1), true);
   while (node != 0) {
     // Add to local env and cummulative env, then initialize
     var_decl = car_(DECL, node);
@@ -2405,9 +2407,6 @@ void comp_glo_var_decl(ast node) {
 
   if (get_op(type) == '(') return; // Ignore function declarations
 
-  // TODO: Add enum/struct/union to env if it's not already there
-  // handle_enum_struct_union_type_decl(type);
-
   assert_var_decl_is_safe(node, false);
 
   if (get_op(type) == '[') { // Array declaration
@@ -2556,7 +2555,16 @@ void comp_struct(ast ident, ast members) {
   append_glo_decl(0); // newline
 }
 
+// Members of the enums and structs that were compiled so far. The type of the
+// variables declared with a typedef'ed name includes the members, so this is
+// used to not compile the same type more than once.
+int compiled_type_members = 0;
+
 void handle_enum_struct_union_type_decl(ast type) {
+  if (get_op(type) == ENUM_KW || get_op(type) == STRUCT_KW) {
+    compiled_type_members = cons(get_child(type, 2), compiled_type_members);
+  }
+
   if (get_op(type) == ENUM_KW) {
     comp_enum_cases(get_child_opt_(ENUM_KW, IDENTIFIER, type, 1), get_child_(ENUM_KW, type, 2));
   } else if (get_op(type) == STRUCT_KW) {
@@ -2568,6 +2576,22 @@ void handle_enum_struct_union_type_decl(ast type) {
   // If not an enum, struct, or union, do nothing
 }
 
+// Variable declarations may also define the enum/struct/union of the variables
+void handle_var_decl_type(ast type, bool local) {
+  int types = compiled_type_members;
+  type = get_type_specifier(type);
+
+  if (get_op(type) == ENUM_KW || get_op(type) == STRUCT_KW || get_op(type) == UNION_KW) {
+    if (get_child(type, 2) == 0) return; // Reference to a type
+    while (types != 0) {
+      if (car(types) == get_child(type, 2)) return; // Already compiled
+      types = cdr(types);
+    }
+    if (local) fatal_error("enum/struct/union definitions are only supported at the top level");
+    handle_enum_struct_union_type_decl(type);
+  }
+}
+
 // For now, we don't do anything with the declarations in a typedef.
 // The only thing we need to do is to call handle_enum_struct_union_type_decl
 // on the type specifier.
@@ -2601,6 +2625,7 @@ void comp_glo_decl(ast node) {
     // translation unit.
     if (get_child_(DECLS, node, 1) == EXTERN_KW) fatal_error("Extern storage class specifier not supported");
     declarations = get_child__(DECLS, LIST, node, 0);
+    handle_var_decl_type(get_child_(DECL, car_(DECL, declarations), 1), false);
     while (declarations != 0) { // Multiple variable declarations
       comp_glo_var_decl(car_(DECL, declarations));
       declarations = tail(declarations);
-- 
2.43.0


From 9f4ea8e6c42e5e0711a176d1e9f116a006120eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 42/67] fix: forward declarations of structs emit nothing in
 shell code

---
 sh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sh.c b/sh.c
index 4f37d24..c0482c3 100644
--- a/sh.c
+++ b/sh.c
@@ -2528,6 +2528,9 @@ void comp_struct(ast ident, ast members) {
   ast decl;
   int offset = new_ast0(INTEGER, 0);
   int field_type;
+
+  if (members == 0) return; // Forward declaration
+
   if (ident != 0) {
     append_glo_decl(string_concat3(wrap_str_lit("# "), wrap_str_pool(get_val_(IDENTIFIER, ident)), wrap_str_lit(" struct member declarations")));
   } else {
-- 
2.43.0


From 4a57329daf88be0de1b812b26560a02c10d64843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 43/67] fix: && and || are 0 or 1 in constant expressions

---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 01afe15..722b241 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1365,12 +1365,12 @@ int eval_constant(ast expr, bool if_macro) {
     case AMP_AMP:
       op1 = eval_constant(child0, if_macro);
       if (!op1) return 0;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case BAR_BAR:
       op1 = eval_constant(child0, if_macro);
       if (op1) return 1;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case '(': // defined operators are represented as fun calls
       if (if_macro && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
-- 
2.43.0


From e7ab4a5ca9a078ca6b0d823b72fea59405367cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:19 +0000
Subject: [PATCH 44/67] fix: a division by zero in a constant expression is an
 error, not a crash

---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index 722b241..9c84f6c 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1344,6 +1344,7 @@ int eval_constant(ast expr, bool if_macro) {
     case '>':
       op1 = eval_constant(child0, if_macro);
       op2 = eval_constant(child1, if_macro);
+      if ((op == '/' || op == '%') && op2 == 0) fatal_error("division by zero in constant expression");
       switch (op) {
         case '*':     return op1 * op2;
         case '/':     return op1 / op2;
-- 
2.43.0


From b6bda17672ef8e93ad487a9223910b00231bbfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:20 +0000
Subject: [PATCH 45/67] fix: the conditions of skipped #if and #elif groups are
 not evaluated

---
 pnut.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pnut.c b/pnut.c
index 9c84f6c..6197a8c 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1447,6 +1447,11 @@ void handle_include() {
 void handle_shell_include();
 #endif
 
+// Skip the rest of the directive
+void skip_directive() {
+  while (tok != '\n' && tok != EOF) get_tok_macro();
+}
+
 void handle_preprocessor_directive() {
   int temp;
 #ifdef SH_INCLUDE_C_CODE
@@ -1461,14 +1466,20 @@ void handle_preprocessor_directive() {
       push_if_macro_mask(temp == IFDEF_ID ? tok == MACRO : tok != MACRO);
     get_tok_macro(); // Skip the macro name
   } else if (tok == IF_KW) {
-    temp = evaluate_if_condition() != 0;
-    push_if_macro_mask(temp);
+    if (if_macro_mask) {
+      temp = evaluate_if_condition() != 0;
+      push_if_macro_mask(temp);
+    } else { // The condition is not evaluated if the group is skipped
+      skip_directive();
+      push_if_macro_mask(false);
+    }
   } else if (tok == IDENTIFIER && val == ELIF_ID) {
-    temp = evaluate_if_condition() != 0;
     if (prev_macro_mask() && !if_macro_executed) {
+      temp = evaluate_if_condition() != 0;
       if_macro_executed |= temp;
       if_macro_mask = temp;
     } else {
+      skip_directive();
       if_macro_mask = false;
     }
   } else if (tok == ELSE_KW) {
@@ -1526,8 +1537,7 @@ void handle_preprocessor_directive() {
       syntax_error("unsupported preprocessor directive");
     }
   } else {
-    // Skip the rest of the directive
-    while (tok != '\n' && tok != EOF) get_tok_macro();
+    skip_directive();
   }
 
   if (tok != '\n' && tok != EOF) {
-- 
2.43.0


From aa97999b884f2890c55c07ed9b0dcbe7b88566dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 46/67] fix: a missing #endif is an error, not an endless loop

---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index 6197a8c..7ebccf1 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2106,6 +2106,7 @@ void get_tok() {
       } else if (ch <= ' ') {
 
         if (ch == EOF) {
+          if (if_macro_stack_ix != 0) syntax_error("unterminated #if/#ifdef/#ifndef directive");
           tok = EOF;
           break;
         }
-- 
2.43.0


From a79aa0bbcda1aaedacf8f303f3e4413b4c2043bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 47/67] fix: #else and #elif without #if are errors

---
 pnut.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 7ebccf1..376225d 100644
--- a/pnut.c
+++ b/pnut.c
@@ -710,7 +710,8 @@ int macro_args_count;   // Number of arguments for the current macro being expan
 bool paste_last_token = false; // Whether the last token was a ## or not
 
 bool prev_macro_mask() {
-  return if_macro_stack_ix == 0 || if_macro_stack[if_macro_stack_ix - 2];
+  if (if_macro_stack_ix == 0) fatal_error("Unbalanced #ifdef/#ifndef/#else/#endif directives.");
+  return if_macro_stack[if_macro_stack_ix - 2];
 }
 
 void push_if_macro_mask(bool new_mask) {
-- 
2.43.0


From 607a4320ee7d5a91ddd5223da4692c18e3c17277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 48/67] fix: pasting operators is rejected instead of reading
 garbage

---
 pnut.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pnut.c b/pnut.c
index 376225d..12ed36b 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1972,12 +1972,12 @@ void paste_tokens(int left_tok, int left_val) {
   }
   right_tok = tok;
   right_val = val;
-  if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || left_tok <= WHILE_KW) {
+  if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || (AUTO_KW <= left_tok && left_tok <= WHILE_KW)) {
     // Something that starts with an identifier can only be an identifier
     begin_string();
     accum_string_string(left_val);
 
-    if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || right_tok <= WHILE_KW) {
+    if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || (AUTO_KW <= right_tok && right_tok <= WHILE_KW)) {
       accum_string_string(right_val);
     } else if (right_tok == INTEGER
 #ifdef PARSE_NUMERIC_LITERAL_WITH_BASE
@@ -2014,7 +2014,7 @@ void paste_tokens(int left_tok, int left_val) {
 #endif
        ) {
       val = -paste_integers(-left_val, -right_val);
-    } else if (right_tok == IDENTIFIER || right_tok == MACRO || right_tok <= WHILE_KW) {
+    } else if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || (AUTO_KW <= right_tok && right_tok <= WHILE_KW)) {
       begin_string();
       accum_string_integer(-left_val);
       accum_string_string(right_val);
-- 
2.43.0


From e9a6c189763968d27b0cee5ef765382fd6ad6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 49/67] fix: pasting an integer with 0 keeps the 0

---
 pnut.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 12ed36b..3df245e 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1940,10 +1940,11 @@ void stringify() {
 // Note that this function only supports small integers, represented as positive integers.
 int paste_integers(int left_val, int right_val) {
   int result = left_val;
-  int right_digits = right_val;
+  int right_digits = right_val / 10;
 #ifdef SUPPORT_64_BIT_LITERALS
   if (left_val < 0 || right_val < 0) fatal_error("Only small integers can be pasted");
 #endif
+  result *= 10; // The right operand has at least one digit, even if it's 0
   while (right_digits > 0) {
     result *= 10;
     right_digits /= 10;
-- 
2.43.0


From 7c206348e4eb0e904548e4283b7d3bd66be543b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 50/67] fix: an empty first macro argument is counted

---
 pnut.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3df245e..5d201a5 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1780,8 +1780,9 @@ void check_macro_arity(int macro_args_count, int macro) {
 int get_macro_args_toks(int macro) {
   int args = 0;
   int macro_args_count = 0;
-  bool prev_is_comma = tok == ',';
+  bool prev_is_comma;
   get_tok_macro_expand(); // Skip '('
+  prev_is_comma = tok == ','; // The first argument may be empty
 
   while (tok != ')' && tok != EOF) {
     if (tok == ',') {
@@ -1802,7 +1803,8 @@ int get_macro_args_toks(int macro) {
 
   if (tok != ')') syntax_error("unterminated macro argument list");
 
-  if (prev_is_comma) {
+  // A macro with 1 parameter is called with an empty argument by ()
+  if (prev_is_comma || (macro_args_count == 0 && cdr(heap[macro + 3]) == 1)) {
     args = cons(0, args); // Push empty arg
     macro_args_count += 1;
   }
-- 
2.43.0


From 3213922abb4f05c6df6694e3d7dfce6926daaa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 51/67] fix: the operands of ## are not macro-expanded

---
 pnut.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pnut.c b/pnut.c
index 5d201a5..5ddfdf6 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1958,13 +1958,14 @@ int paste_integers(int left_val, int right_val) {
 void paste_tokens(int left_tok, int left_val) {
   int right_tok;
   int right_val;
+  bool prev_expand_macro_arg = expand_macro_arg;
   expand_macro_arg = false;
   get_tok_macro();
-  expand_macro_arg = true;
   // We need to handle the case where the right-hand side is a macro argument that expands to empty
   // In that case, the left-hand side is returned as is.
   if (tok == MACRO_ARG) {
     if (get_macro_arg(val) == 0) {
+      expand_macro_arg = prev_expand_macro_arg;
       tok = left_tok;
       val = left_val;
       return;
@@ -1973,6 +1974,7 @@ void paste_tokens(int left_tok, int left_val) {
       get_tok_macro();
     }
   }
+  expand_macro_arg = prev_expand_macro_arg;
   right_tok = tok;
   right_val = val;
   if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || (AUTO_KW <= left_tok && left_tok <= WHILE_KW)) {
@@ -2070,8 +2072,19 @@ void get_tok() {
 
         // Check if the next token is ## for token pasting
         if (macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
-          if (tok == MACRO || tok == MACRO_ARG) {
-            // If the token is a macro or macro arg, it must be expanded before pasting
+          if (tok == MACRO_ARG && get_macro_arg(val) != 0 && cdr(get_macro_arg(val)) == 0) {
+            // The operands of ## are not macro-expanded
+            val = car(get_macro_arg(val));
+            tok = car(val);
+            val = cdr(val);
+            if (tok >= IDENTIFIER) tok = heap[val + 2];
+          }
+
+          if (tok == MACRO_ARG && get_macro_arg(val) == 0) {
+            macro_tok_lst = cdr(macro_tok_lst); // The left-hand side is empty, only the right-hand side remains
+            continue;
+          } else if (tok == MACRO_ARG) {
+            // If the argument has many tokens, only the last one is pasted
             macro_tok_lst = cdr(macro_tok_lst); // We consume the ## token
             paste_last_token = true;
           } else {
@@ -2091,7 +2104,7 @@ void get_tok() {
           paste_tokens(tok, val);
         }
 
-        if (tok == MACRO) { // Nested macro expansion!
+        if (tok == MACRO && expand_macro_arg) { // Nested macro expansion!
           if (attempt_macro_expansion(val)) {
             continue;
           }
-- 
2.43.0


From 985a763c780bc4ae9dd90f308f2019afff98c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 52/67] fix: interned strings with a NUL character are compared
 to their end

---
 pnut.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 5ddfdf6..03d3302 100644
--- a/pnut.c
+++ b/pnut.c
@@ -646,8 +646,10 @@ int end_ident() {
     end_ident_i = 0;
     c1 = string_pool[string_start+end_ident_i];
     c2 = string_pool[probe_start+end_ident_i];
+    // Strings may contain NUL characters, so their lengths are compared as well
+    if (heap[probe+4] != string_pool_alloc - string_start - 1) c2 = c1 + 1;
     while (c1 == c2) {
-      if (c1 == 0) {
+      if (end_ident_i == heap[probe+4]) {
         string_pool_alloc = string_start; // undo string allocation
         return probe;
       }
-- 
2.43.0


From 2e37d45d184fa8c7ecceabbfac3a0073e0559f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 53/67] fix: the terminator of interned strings counts against
 the string pool size

---
 pnut.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pnut.c b/pnut.c
index 03d3302..8e51382 100644
--- a/pnut.c
+++ b/pnut.c
@@ -638,6 +638,9 @@ int end_ident_i;
 int end_ident() {
   string_pool[string_pool_alloc] = 0; // terminate string
   string_pool_alloc += 1; // account for terminator
+  if (string_pool_alloc >= STRING_POOL_SIZE) {
+    fatal_error("string pool overflow");
+  }
 
   probe = heap[hash];
 
-- 
2.43.0


From 6bf7bc6232494fb08cd42a7c932b6ceb83639268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 54/67] fix: spaces, comments or the end of the file may follow
 #include

---
 pnut.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pnut.c b/pnut.c
index 8e51382..ebca308 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1424,8 +1424,36 @@ int evaluate_if_condition() {
   return eval_constant(expr, true);
 }
 
+// Skip the spaces and comments that follow the file name of an #include, because
+// the included file is read from the next character on
+void skip_to_end_of_line() {
+  while (ch == ' ' || ch == '\t' || ch == '\r' || ch == '/') {
+    if (ch == '/') {
+      get_ch();
+      if (ch == '/') {
+        while (ch != '\n' && ch != EOF) get_ch();
+      } else if (ch == '*') {
+        get_ch();
+        while (ch != '/') {
+          while (ch != '*' && ch != EOF) get_ch();
+          if (ch == EOF) syntax_error("unterminated comment");
+          while (ch == '*') get_ch();
+        }
+        get_ch();
+      } else {
+        syntax_error("preprocessor expected end of line");
+      }
+    } else {
+      get_ch();
+    }
+  }
+  if (ch == EOF) ch = '\n'; // The directive may be on the last line of the file
+  if (ch != '\n') syntax_error("preprocessor expected end of line");
+}
+
 void handle_include() {
   if (tok == STRING) {
+    skip_to_end_of_line();
     include_file(STRING_BUF(val), include_stack->dirname);
 #ifdef DEBUG_EXPAND_INCLUDES
     // When running pnut in "expand includes" mode, we want to annotate the
@@ -1437,6 +1465,7 @@ void handle_include() {
   } else if (tok == '<') {
     accum_string_until('>');
     val = end_string();
+    skip_to_end_of_line();
     // #include <file> directives only take effect if the search path is provided
     // TODO: Issue a warning to stderr when skipping the directive
     if (include_search_path != 0) {
-- 
2.43.0


From cd6a16e1ff0bb8dd018a6e1645ce80ae1619a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 55/67] fix: an #include on the unterminated last line of an
 included file is relative to that file

---
 pnut.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index ebca308..b5eae10 100644
--- a/pnut.c
+++ b/pnut.c
@@ -160,6 +160,7 @@ struct IncludeStack {
 };
 struct IncludeStack *include_stack, *include_stack2;
 FILE *fp = 0; // Current file pointer that's being read
+bool include_eof = false; // If the end of the current included file was reached
 char* fp_filepath = 0; // The path of the current file being read
 char* include_search_path = 0; // Search path for include files
 int output_fd = 1; // Output file descriptor (1 = stdout)
@@ -836,8 +837,14 @@ void get_ch() {
   ch = fgetc(fp);
 
   if (ch == EOF) {
-    // If it's not the last file on the stack, EOF means that we need to switch to the next file
-    if (include_stack->next != 0) {
+    // If it's not the last file on the stack, EOF means that we need to switch to the next file.
+    // The file is only left on the second EOF, because its last token may be
+    // the file name of an #include, which is relative to this file.
+    if (include_stack->next != 0 && !include_eof) {
+      include_eof = true;
+      ch = '\n';
+    } else if (include_stack->next != 0) {
+      include_eof = false;
       fclose(include_stack->fp);
       include_stack2 = include_stack;
       include_stack = include_stack->next;
@@ -949,6 +956,7 @@ FILE *fopen_source_file(char *file_name, char *relative_to) {
 
 void include_file(char *file_name, char *relative_to) {
   fp = fopen_source_file(file_name, relative_to);
+  include_eof = false;
   include_stack2 = malloc(sizeof(struct IncludeStack));
   include_stack2->next = include_stack;
   include_stack2->fp = fp;
-- 
2.43.0


From 19dafe4545df7a40f9cc54389e4ed4704bc7f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 56/67] fix: negative enumeration constants are not taken for
 large literals

---
 exe.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index cf06910..c058072 100644
--- a/exe.c
+++ b/exe.c
@@ -1442,11 +1442,8 @@ void codegen_rvalue(ast node) {
           push_reg(reg_X);
           break;
         case BINDING_ENUM_CST:
-#ifdef SUPPORT_64_BIT_LITERALS
-          mov_reg_large_imm(reg_X, get_val(heap[binding+3]));
-#else
+          // Enum values are never large, and a positive value here is a negative number, not a large one
           mov_reg_imm(reg_X, -get_val_(INTEGER, heap[binding+3]));
-#endif
           push_reg(reg_X);
           break;
 
-- 
2.43.0


From 329c7b1a3984898ea1b530bd483361effd68b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 57/67] fix: fgetc returns the byte it read whatever the
 descriptor's number

---
 exe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index c058072..df73f91 100644
--- a/exe.c
+++ b/exe.c
@@ -2530,7 +2530,8 @@ void rt_crash(char* msg) {
 
 void rt_fgetc(int fd_reg) {
   int success_lbl = alloc_label("rt_fgetc_success");
-  push_reg(reg_X);            // Allocate buffer on stack, initialized with some random value
+  mov_reg_imm(reg_Y, 0);
+  push_reg(reg_Y);            // Allocate buffer on stack, zeroed because only its first byte is read
   mov_reg_reg(reg_X, fd_reg); // reg_X = file descriptor (stdin)
   mov_reg_reg(reg_Y, reg_SP); // reg_Y = buffer size
   mov_reg_imm(reg_Z, 1);      // reg_Z = buffer address
-- 
2.43.0


From 85c8b0e6fd81e02ae751fff83a7c53f9677cac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 58/67] fix: Mach-O segment covers the headers and all of the
 code

---
 mach-o.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach-o.c b/mach-o.c
index 9f6a886..6cd16e2 100644
--- a/mach-o.c
+++ b/mach-o.c
@@ -43,11 +43,11 @@ void write_text_section(){
 
   write_i32_le(0x00000000); // VM address low
   write_i32_le(0x00000001); // VM address high
-  write_i32_le(code_alloc); // VM size low
+  write_i32_le(0x168 + code_alloc); // VM size low
   write_i32_le(0x00000000); // VM size high. Warning: This assumes that the file size is less than 4GB
   write_i32_le(0x00000000); // file offset low
   write_i32_le(0x00000000); // file offset high
-  write_i32_le(code_alloc); // file size low
+  write_i32_le(0x168 + code_alloc); // file size low
   write_i32_le(0x00000000); // file size high. Warning: This assumes that the file size is less than 4GB
 
   write_4_i8(0x07, 0x00, 0x00, 0x00); // max VM protection ; 4 bytes
-- 
2.43.0


From 1bedb28dab025ceb7a3990b21b1f62a9e60042e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 59/67] fix: a character constant in a global initialiser is
 printed as a number

---
 sh.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index c0482c3..ed86da3 100644
--- a/sh.c
+++ b/sh.c
@@ -1268,7 +1268,9 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
 #ifdef SH_INLINE_CHAR_LITERAL
       return wrap_in_condition_if_needed(context, test_side_effects, wrap_int(get_val_(CHARACTER, node)));
 #else
-      if (context == RVALUE_CTX_ARITH_EXPANSION) {
+      if (top_level_stmt) { // Character identifiers are only defined at the end of the script
+        return wrap_int(get_val_(CHARACTER, node));
+      } else if (context == RVALUE_CTX_ARITH_EXPANSION) {
         return character_ident(get_val_(CHARACTER, node));
       } else {
         return wrap_in_condition_if_needed(context, test_side_effects, string_concat(wrap_char('$'), character_ident(get_val_(CHARACTER, node))));
-- 
2.43.0


From 1fb3f5f6aef8a9e35c4d4cd824023a54944168c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 60/67] fix: arrays with an initialiser after an array without
 one are initialised

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index ed86da3..c193385 100644
--- a/sh.c
+++ b/sh.c
@@ -2446,6 +2446,8 @@ void comp_glo_var_decl(ast node) {
         fatal_error("Array declaration without size or initializer list");
       }
 
+      // If the defarr that was emitted doesn't support initialization, redefine it
+      if (runtime_use_initialize && !runtime_initialize_defined) runtime_defarr_defined = false;
       runtime_defarr();
 
       append_glo_decl(
-- 
2.43.0


From bafdc5247de87e70bfbc619e26588d4183870728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:26 +0000
Subject: [PATCH 61/67] fix: pnut-sh: -D takes a value and a separate argument
 as in pnut-exe

-DNAME=VALUE silently defined a macro called NAME=VALUE, so NAME stayed undefined.
---
 pnut.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pnut.c b/pnut.c
index b5eae10..af74e9a 100644
--- a/pnut.c
+++ b/pnut.c
@@ -4022,7 +4022,6 @@ ast parse_compound_statement() {
 
 //-----------------------------------------------------------------------------
 
-#ifndef sh
 void handle_macro_D(char *opt) {
   char *start = opt;
   char *macro_buf;
@@ -4067,7 +4066,6 @@ void handle_macro_D(char *opt) {
 
   free(macro_buf);
 }
-#endif
 
 int main(int argc, char **argv) {
   int i;
@@ -4094,6 +4092,7 @@ int main(int argc, char **argv) {
             output_fd = open(argv[i] + 2, O_WRONLY | O_CREAT | O_TRUNC, 0644);
           }
           break;
+#endif
 
         case 'D':
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
@@ -4103,12 +4102,7 @@ int main(int argc, char **argv) {
             handle_macro_D(argv[i] + 2); // skip '-D'
           }
           break;
-#else
-          case 'D':
-            // pnut-sh only needs -D<macro> and no other options
-            init_builtin_int_macro(argv[i] + 2, 1); // +2 to skip -D
-            break;
-#endif
+
         case 'U':
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
-- 
2.43.0


From d7206574e5889e5388d4bc4f7f1df26758c8957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:26 +0000
Subject: [PATCH 62/67] fix: an option without its argument is rejected

-D, -U and -o as the last argument read through the null pointer at the end of argv (-I was ignored).
---
 pnut.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pnut.c b/pnut.c
index af74e9a..df06b48 100644
--- a/pnut.c
+++ b/pnut.c
@@ -4087,6 +4087,7 @@ int main(int argc, char **argv) {
           // Output file name
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i == argc) fatal_error("missing option argument");
             output_fd = open(argv[i], O_WRONLY | O_CREAT | O_TRUNC, 0644);
           } else {
             output_fd = open(argv[i] + 2, O_WRONLY | O_CREAT | O_TRUNC, 0644);
@@ -4097,6 +4098,7 @@ int main(int argc, char **argv) {
         case 'D':
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i == argc) fatal_error("missing option argument");
             handle_macro_D(argv[i]);
           } else {
             handle_macro_D(argv[i] + 2); // skip '-D'
@@ -4106,6 +4108,7 @@ int main(int argc, char **argv) {
         case 'U':
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i == argc) fatal_error("missing option argument");
             init_ident(IDENTIFIER, argv[i]);
           } else {
             init_ident(IDENTIFIER, argv[i] + 2); // skip '-U'
@@ -4117,6 +4120,7 @@ int main(int argc, char **argv) {
 
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i == argc) fatal_error("missing option argument");
             include_search_path = argv[i];
           } else {
             include_search_path = argv[i] + 2; // skip '-I'
-- 
2.43.0


From a986f003467c9dc0670b03b7343524ad805dbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:26 +0000
Subject: [PATCH 63/67] fix: an output file that cannot be opened is an error

The code was written to descriptor -1 and the compilation reported success.
---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index df06b48..ecfa209 100644
--- a/pnut.c
+++ b/pnut.c
@@ -4092,6 +4092,7 @@ int main(int argc, char **argv) {
           } else {
             output_fd = open(argv[i] + 2, O_WRONLY | O_CREAT | O_TRUNC, 0644);
           }
+          if (output_fd < 0) fatal_error("Could not open output file");
           break;
 #endif
 
-- 
2.43.0


From 848589c99d0fbf9605e8a4a411cb9da9fa000e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:26 +0000
Subject: [PATCH 64/67] fix: a failed write of the executable is an error

A full disk or a closed output left a truncated executable and exit status 0.
---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index df73f91..e31ae3c 100644
--- a/exe.c
+++ b/exe.c
@@ -60,7 +60,7 @@ void emit_i64_le_large_imm(int imm_obj) {
 char write_buf[1];
 void write_i8(int n) {
   write_buf[0] = (n & 0xff);
-  write(output_fd, write_buf, 1);
+  if (write(output_fd, write_buf, 1) != 1) fatal_error("could not write output");
 }
 
 void write_2_i8(int a, int b) {
-- 
2.43.0


From 2289fefa92a16ab11947fc6fed360fb010d714c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:30 +0000
Subject: [PATCH 65/67] fix: a function with too many lines of shell code is
 rejected

The table of generated lines was written past its end.
---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index c193385..fe81439 100644
--- a/sh.c
+++ b/sh.c
@@ -373,6 +373,7 @@ void init_comp_context() {
 }
 
 void append_glo_decl(text decl) {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("too many lines in declaration");
   glo_decls[glo_decl_ix] = nest_level;
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = decl;
@@ -380,6 +381,7 @@ void append_glo_decl(text decl) {
 }
 
 int append_glo_decl_fixup() {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("too many lines in declaration");
   glo_decls[glo_decl_ix] = -nest_level; // Negative value to indicate that it's a fixup
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = 0;
-- 
2.43.0


From 9d4e784bb957300f5d63063a9628808e630ecdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:30 +0000
Subject: [PATCH 66/67] fix: SAFE_MODE: too many labels are rejected

The table of labels was written past its end.
---
 exe.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index e31ae3c..cd3b5ba 100644
--- a/exe.c
+++ b/exe.c
@@ -370,7 +370,8 @@ enum {
 };
 
 #ifdef SAFE_MODE
-int labels[100000];
+#define MAX_LABELS 100000
+int labels[MAX_LABELS];
 int labels_ix = 0;
 
 void assert_all_labels_defined() {
@@ -393,6 +394,7 @@ void assert_all_labels_defined() {
 }
 
 void add_label(int lbl) {
+  if (labels_ix >= MAX_LABELS) fatal_error("too many labels");
   labels[labels_ix++] = lbl;
 }
 
-- 
2.43.0


From d5b12ffc74dc7f9d9407b1d6a56aa8be1bd88f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 67/67] fix: SH_INCLUDE_C_CODE: a declaration that does not fit
 the C code buffer is rejected

The buffer was written past its end.
---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index ecfa209..c19c96e 100644
--- a/pnut.c
+++ b/pnut.c
@@ -872,6 +872,7 @@ void get_ch() {
 #endif
 #ifdef SH_INCLUDE_C_CODE
   // Save C code chars so they can be displayed with the shell code
+  if (code_char_buf_ix >= C_CODE_BUF_LEN) fatal_error("C code buffer overflow");
   code_char_buf[code_char_buf_ix] = ch;
   code_char_buf_ix += 1;
 #endif
-- 
2.43.0

