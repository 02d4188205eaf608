From a125022ed492f28fe9e9c4744916f719f9185fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 01/55] fix: evaluate the condition of a do-while loop on
 continue

---
 env.c | 3 ++-
 exe.c | 8 +++++---
 sh.c  | 2 ++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/env.c b/env.c
index f601322..2f8d8e4 100644
--- a/env.c
+++ b/env.c
@@ -136,11 +136,12 @@ void cgc_add_local_var(enum BINDING binding_type, int ident, ast type) {
 }
 
 void cgc_add_enclosing_loop() {
-  int binding = alloc_obj(4);
+  int binding = alloc_obj(5);
   heap[binding+0] = cgc_locals;
   heap[binding+1] = BINDING_LOOP;
   heap[binding+2] = 0; // loop end action start
   heap[binding+3] = 0; // loop end action end
+  heap[binding+4] = 0; // last line of the loop body (do-while condition)
   cgc_locals = binding;
 }
 
diff --git a/exe.c b/exe.c
index a70980c..6d7d542 100644
--- a/exe.c
+++ b/exe.c
@@ -2167,20 +2167,22 @@ void codegen_statement(ast node) {
 
   } else if (op == DO_KW) {
 
-    lbl1 = alloc_label(0); // do statement start
+    lbl1 = alloc_label(0); // continue point (loop condition)
     lbl2 = alloc_label(0); // break point
+    lbl3 = alloc_label(0); // do statement start
 
     save_fs = cgc_fs;
     save_locals = cgc_locals;
 
     cgc_add_enclosing_loop(cgc_fs, lbl2, lbl1);
-    def_label(lbl1);
+    def_label(lbl3);
     codegen_statement(get_child_(DO_KW, node, 0));
+    def_label(lbl1);
     codegen_rvalue(get_child_(DO_KW, node, 1));
     pop_reg(reg_X);
     grow_fs(-1);
     xor_reg_reg(reg_Y, reg_Y);
-    jump_cond_reg_reg(NE, lbl1, reg_X, reg_Y);
+    jump_cond_reg_reg(NE, lbl3, reg_X, reg_Y);
 
     def_label(lbl2);
 
diff --git a/sh.c b/sh.c
index 22ba1e6..a2deca9 100644
--- a/sh.c
+++ b/sh.c
@@ -1986,6 +1986,7 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   cgc_add_enclosing_loop();
 
   loop_binding = cgc_locals;
+  heap[loop_binding + 4] = last_line;
 
   // This is a little bit of a hack, but it makes things so much simpler.
   // Because we need to capture the code for the end of loop actions
@@ -2029,6 +2030,7 @@ bool comp_break() {
 bool comp_continue() {
   int binding = cgc_lookup_enclosing_loop(cgc_locals);
   if (binding == 0) fatal_error("comp_statement: continue not in loop");
+  if (heap[binding + 4]) append_glo_decl(heap[binding + 4]);
   replay_glo_decls(heap[binding + 2], heap[binding + 3], true);
   // We could remove the continue when in tail position, but it's not worth doing
   append_glo_decl(wrap_str_lit("continue"));
-- 
2.43.0


From 6c8a336e433275688b2729733de4a70189476230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 02/55] fix: && and || evaluate to 0 or 1 in the native
 backends

---
 exe.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/exe.c b/exe.c
index 6d7d542..f45908d 100644
--- a/exe.c
+++ b/exe.c
@@ -932,8 +932,7 @@ ast value_type(ast node) {
     } else if (op == '=' || op == AMP_EQ || op == BAR_EQ || op == CARET_EQ || op == LSHIFT_EQ || op == MINUS_EQ || op == PERCENT_EQ || op == PLUS_EQ || op == RSHIFT_EQ || op == SLASH_EQ || op == STAR_EQ) {
       return value_type(child0); // Only the left side is relevant here
     } else if (op == AMP_AMP || op == BAR_BAR) {
-      // TODO: Check that the operands have compatible types?
-      return value_type(child0);
+      return int_type; // Logical operators always return an integer
     } else if (op == '(') {
       binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
       if (binding != 0) {
@@ -1570,15 +1569,20 @@ void codegen_rvalue(ast node) {
       push_reg(reg_X);
     } else if (op == AMP_AMP || op == BAR_BAR) {
       lbl1 = alloc_label(0);
+      lbl2 = alloc_label(0);
       codegen_rvalue(child0);
-      pop_reg(reg_X);
-      push_reg(reg_X);
+      pop_reg(reg_X); grow_fs(-1);
       xor_reg_reg(reg_Y, reg_Y);
       jump_cond_reg_reg(op == AMP_AMP ? EQ : NE, lbl1, reg_X, reg_Y);
-      pop_reg(reg_X); grow_fs(-1);
       codegen_rvalue(child1);
-      grow_fs(-1);
+      pop_reg(reg_X); grow_fs(-1);
       def_label(lbl1);
+      // The result is always 0 or 1
+      xor_reg_reg(reg_Y, reg_Y);
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
+      mov_reg_imm(reg_X, 1);
+      def_label(lbl2);
+      push_reg(reg_X);
     } else if (op == '(') {
       codegen_call(node);
     } else if (op == '.') {
-- 
2.43.0


From 5728b023b9b6035d1c78741b92c8f0a72b4fab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 03/55] fix: getchar and fgetc return EOF when read fails

---
 exe.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exe.c b/exe.c
index f45908d..6363581 100644
--- a/exe.c
+++ b/exe.c
@@ -2488,15 +2488,16 @@ void rt_crash(char* msg) {
 
 void rt_fgetc(int fd_reg) {
   int success_lbl = alloc_label("rt_fgetc_success");
-  push_reg(reg_X);            // Allocate buffer on stack, initialized with some random value
+  mov_reg_imm(reg_Z, 0);
+  push_reg(reg_Z);            // Allocate buffer on stack, initialized with 0 since only the low byte is read
   mov_reg_reg(reg_X, fd_reg); // reg_X = file descriptor (stdin)
   mov_reg_reg(reg_Y, reg_SP); // reg_Y = buffer size
   mov_reg_imm(reg_Z, 1);      // reg_Z = buffer address
   os_read();                  // reg_X = number of bytes read, buffer[0] = character
 
   pop_reg(reg_Z);             // Get character from buffer and deallocate buffer
-  mov_reg_imm(reg_Y, 0);      // If read returned 0, then we're at EOF (-1)
-  jump_cond_reg_reg(NE, success_lbl, reg_X, reg_Y);
+  mov_reg_imm(reg_Y, 0);      // If read returned 0 (EOF) or an error, the result is EOF (-1)
+  jump_cond_reg_reg(GT, success_lbl, reg_X, reg_Y);
   mov_reg_imm(reg_Z, -1);     // mov  eax, -1  # -1 on EOF
   def_label(success_lbl);     // end label
   mov_reg_reg(reg_X, reg_Z);  // return value
-- 
2.43.0


From afe640c783710c11788f98677124224d5e281a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 04/55] fix: malloc detects requests larger than the space left
 in the heap

---
 exe.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 6363581..6a9e3bc 100644
--- a/exe.c
+++ b/exe.c
@@ -2520,18 +2520,19 @@ void rt_fopen() {
 void rt_malloc() {
   int end_lbl = alloc_label("rt_malloc_success");
 
-  mov_reg_mem(reg_Y, reg_glo, WORD_SIZE); // Bump pointer
-  add_reg_reg(reg_X, reg_Y);              // New bump pointer
   mov_reg_mem(reg_Y, reg_glo, 0);         // Heap start
   add_reg_imm(reg_Y, RT_HEAP_SIZE);       // End of heap
+  mov_reg_mem(reg_Z, reg_glo, WORD_SIZE); // Bump pointer
+  sub_reg_reg(reg_Y, reg_Z);              // Space left in the heap
 
   // Make sure the heap is large enough.
-  // new bump pointer (reg_x) >= end of heap (reg_y)
-  jump_cond_reg_reg(LE, end_lbl, reg_X, reg_Y);
+  // requested size (reg_x) <= space left (reg_y), both unsigned
+  jump_cond_reg_reg(LE_U, end_lbl, reg_X, reg_Y);
   rt_crash("Heap overflow");
 
   def_label(end_lbl);
   mov_reg_mem(reg_Y, reg_glo, WORD_SIZE); // Old bump pointer
+  add_reg_reg(reg_X, reg_Y);              // New bump pointer
   mov_mem_reg(reg_glo, WORD_SIZE, reg_X); // Adjust the bump pointer
   mov_reg_reg(reg_X, reg_Y);              // Return the old bump pointer
 }
-- 
2.43.0


From fa2bcb8a942f7493ca9cda79e636a429cd8cbe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 05/55] fix: system call errors are negative on macOS

---
 x86.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x86.c b/x86.c
index 99fdd04..c67e14a 100644
--- a/x86.c
+++ b/x86.c
@@ -803,6 +803,13 @@ void syscall_3(int syscall_code, int di_reg, int si_reg, int dx_reg) {
   if (dx_reg >= 0) mov_reg_reg(DX, dx_reg);
   mov_reg_imm(AX, syscall_code); // AX = syscall_code
   syscall_();                    // syscall
+#ifdef target_x86_64_mac
+  // macOS (BSD) signals errors by setting the carry flag and returning errno in
+  // rax, so it's negated to have the same convention as Linux.
+  emit_2_i8(0x73, 0x03);         // jnc +3
+  emit_i8(0x48);                 // neg rax
+  emit_2_i8(0xF7, 0xD8);
+#endif
 }
 
 void os_allocate_memory(int size) {
@@ -830,8 +837,6 @@ void os_write() {
 
 void os_open() {
   syscall_3(SYS_OPEN, reg_X, reg_Y, reg_Z);
-  // MacOS (BSD) signals errors by setting the carry flag, while Linux uses a negative return value.
-  // For now, we'll assume macOS and Linux have the same behavior and return a negative value in rax.
 }
 
 void os_close() {
-- 
2.43.0


From b97dfd8c415a444fb13d580e8ae607f2102b3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 06/55] fix: the Mach-O text segment covers the headers and all
 of the code

---
 mach-o.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach-o.c b/mach-o.c
index 9f6a886..728f292 100644
--- a/mach-o.c
+++ b/mach-o.c
@@ -43,11 +43,11 @@ void write_text_section(){
 
   write_i32_le(0x00000000); // VM address low
   write_i32_le(0x00000001); // VM address high
-  write_i32_le(code_alloc); // VM size low
+  write_i32_le(code_alloc + 0x168); // VM size low (0x168 bytes of headers precede the code)
   write_i32_le(0x00000000); // VM size high. Warning: This assumes that the file size is less than 4GB
   write_i32_le(0x00000000); // file offset low
   write_i32_le(0x00000000); // file offset high
-  write_i32_le(code_alloc); // file size low
+  write_i32_le(code_alloc + 0x168); // file size low
   write_i32_le(0x00000000); // file size high. Warning: This assumes that the file size is less than 4GB
 
   write_4_i8(0x07, 0x00, 0x00, 0x00); // max VM protection ; 4 bytes
-- 
2.43.0


From e63841d1e1d891c8aa5b1450919eaf944289298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 07/55] fix: variables declared in a switch body keep the stack
 balanced across cases

---
 exe.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index 6a9e3bc..03d28f5 100644
--- a/exe.c
+++ b/exe.c
@@ -2266,11 +2266,22 @@ void codegen_statement(ast node) {
       jump(lbl1);
       def_label(heap[binding + 4]);           // false jump location of previous case
       heap[binding + 4] = alloc_label(0);     // create false jump location for current case
+      save_fs = cgc_fs;
+      cgc_fs = heap[binding + 2] + 1;         // only the switch operand is on the stack at this point
       codegen_rvalue(get_child_(CASE_KW, node, 0)); // evaluate case expression and compare it
       pop_reg(reg_Y); grow_fs(-1);
       mov_reg_mem(reg_X, reg_SP, 0);          // get switch operand without popping it
-      jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
-      jump(heap[binding + 4]);                // condition is false => jump to next case
+      if (save_fs == cgc_fs) {
+        jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
+        jump(heap[binding + 4]);              // condition is false => jump to next case
+      } else {
+        lbl2 = alloc_label(0);
+        jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
+        jump(heap[binding + 4]);              // condition is false => jump to next case
+        def_label(lbl2);
+        grow_stack(save_fs - cgc_fs);         // make room for the variables declared before the case
+        cgc_fs = save_fs;
+      }
       def_label(lbl1);                        // start of case conditional block
       codegen_statement(get_child_(CASE_KW, node, 1));  // case statement
     } else {
@@ -2284,7 +2295,12 @@ void codegen_statement(ast node) {
     if (binding != 0) {
       if (heap[binding + 5]) fatal_error("default already defined in switch");
       heap[binding + 5] = alloc_label(0);                 // create label for default
+      lbl1 = alloc_label(0);                              // skip stack adjustment when falling through
+      save_fs = heap[binding + 2] + 1;                    // only the switch operand is on the stack when jumping to default
+      if (cgc_fs != save_fs) jump(lbl1);
       def_label(heap[binding + 5]);                       // default label
+      if (cgc_fs != save_fs) grow_stack(cgc_fs - save_fs); // make room for the variables declared before default
+      def_label(lbl1);
       codegen_statement(get_child_(DEFAULT_KW, node, 0)); // default statement
     } else {
       fatal_error("default outside of switch");
-- 
2.43.0


From f2a7ff10ec701fe215808c836416427e7fdeb2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 08/55] fix: index[array] can be assigned to

---
 exe.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exe.c b/exe.c
index 03d28f5..af54a64 100644
--- a/exe.c
+++ b/exe.c
@@ -1293,6 +1293,7 @@ int codegen_lvalue(ast node) {
       codegen_rvalue(child1);
       codegen_binop('+', child0, child1);
       grow_fs(-2);
+      if (is_not_pointer_type(type)) type = value_type(child1); // index[array]
       lvalue_width = ref_type_width(type);
     } else if (op == '.') {
       type = value_type(child0);
-- 
2.43.0


From 09e50e1b125688225fab4650a0c2cd55965a0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 09/55] fix: calls through function pointers have a type

---
 exe.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/exe.c b/exe.c
index af54a64..3d9e4cf 100644
--- a/exe.c
+++ b/exe.c
@@ -934,17 +934,12 @@ ast value_type(ast node) {
     } else if (op == AMP_AMP || op == BAR_BAR) {
       return int_type; // Logical operators always return an integer
     } else if (op == '(') {
-      binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
-      if (binding != 0) {
-        // heap[binding+5] is the '(' type
-        return get_child_('(', heap[binding+5], 0);
-      } else {
-        putstr("ident = ");
-        putstr(STRING_BUF(get_val_(IDENTIFIER, child0)));
-        putchar('\n');
-        fatal_error("value_type: function not found");
-        return -1;
+      left_type = value_type(child0); // function or function pointer
+      if (!is_function_type(left_type)) {
+        fatal_error("value_type: called object is not a function or function pointer");
       }
+      if (get_op(left_type) == '*') left_type = get_child_('*', left_type, 1);
+      return get_child_('(', left_type, 0);
     } else if (op == '.') {
       left_type = value_type(child0);
       if (is_struct_or_union_type(left_type)) {
-- 
2.43.0


From 36bad225425012d0cf897702300fdfedec1cd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 10/55] fix: elements of multidimensional arrays

---
 exe.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 3d9e4cf..5aafbd2 100644
--- a/exe.c
+++ b/exe.c
@@ -1100,7 +1100,10 @@ void codegen_binop(int op, ast lhs, ast rhs) {
     }
 
     add_reg_reg(reg_X, reg_Y);
-    load_mem_location(reg_X, reg_X, 0, width, is_signed);
+    // Arrays, structs and unions are represented by their address
+    if (!is_aggregate_type(dereference_type(is_pointer_type(left_type) ? left_type : right_type))) {
+      load_mem_location(reg_X, reg_X, 0, width, is_signed);
+    }
   } else {
     putstr("op="); putint(op); putchar('\n');
     fatal_error("codegen_binop: unknown op");
@@ -1452,9 +1455,12 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       if (is_function_type(type1)) {
       } else if (is_pointer_type(type1)) {
-        pop_reg(reg_X);
-        load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
-        push_reg(reg_X);
+        // Arrays, structs and unions are represented by their address
+        if (!is_aggregate_type(dereference_type(type1))) {
+          pop_reg(reg_X);
+          load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
+          push_reg(reg_X);
+        }
       } else {
         fatal_error("codegen_rvalue: non-pointer is being dereferenced with *");
       }
-- 
2.43.0


From 49f0b0fadd66d5530a10bb8dc0b4912e8f988d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 11/55] fix: struct initializers use the offsets of the members

---
 exe.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/exe.c b/exe.c
index 5aafbd2..39d9cd6 100644
--- a/exe.c
+++ b/exe.c
@@ -1833,6 +1833,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
   ast inner_type;
   int arr_len;
   int inner_type_width;
+  int member_offset = 0;
 
   type = canonicalize_type(type);
 
@@ -1873,19 +1874,18 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
 
         case STRUCT_KW:
           members = get_child_(STRUCT_KW, type, 2);
-          while (init != 0 && members != 0) {
+          while (members != 0 && (init != 0 || local)) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-            codegen_initializer(local, car(init), inner_type, base_reg, offset);
-            offset += type_width(inner_type, true, false);
-            init = tail(init);
-            members = tail(members);
-          }
-
-          // Initialize rest of the members to 0
-          while (local && members != 0) {
-            inner_type = get_child_(DECL, car_(DECL, members), 1);
-            initialize_memory(0, base_reg, offset, type_width(inner_type, true, false));
-            offset += type_width(inner_type, true, false);
+            inner_type_width = type_width(inner_type, true, false);
+            if (init != 0) {
+              codegen_initializer(local, car(init), inner_type, base_reg, offset + member_offset);
+              init = tail(init);
+            } else { // Initialize rest of the members to 0
+              initialize_memory(0, base_reg, offset + member_offset, inner_type_width);
+            }
+            // Same offsets as struct_member_offset
+            if (inner_type_width != 0) member_offset = align_to(type_largest_member(inner_type), member_offset);
+            member_offset += inner_type_width;
             members = tail(members);
           }
           break;
-- 
2.43.0


From 360217f19dad58b3cc626c1f87f3030a319aeb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 12/55] fix: pointers to arrays step by the size of the array

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 39d9cd6..fbe20d4 100644
--- a/exe.c
+++ b/exe.c
@@ -659,7 +659,7 @@ int type_width(ast type, bool array_value, bool word_align) {
 
 // Width of an object pointed to by a reference type.
 ast ref_type_width(ast type) {
-  return type_width(dereference_type(type), false, false);
+  return type_width(dereference_type(type), true, false);
 }
 
 // Structs, enums and unions types come in 2 variants:
-- 
2.43.0


From 5b59f8c64cede4f87bf51f5f3135373ccbba271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 13/55] fix: operands narrower than int are promoted to int

---
 exe.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index fbe20d4..ee70bd9 100644
--- a/exe.c
+++ b/exe.c
@@ -615,6 +615,12 @@ bool is_signed_numeric_type(ast type) {
   }
 }
 
+// Integer promotion: operands narrower than int are converted to int
+ast promote_type(ast type) {
+  int op = get_op(type);
+  return op == CHAR_KW || op == SHORT_KW ? int_type : type;
+}
+
 // Size an object of the given type would occupy in memory (in bytes).
 // If array_value is true, the size of the array is returned, otherwise the
 // size of the pointer is returned.
@@ -885,7 +891,9 @@ ast value_type(ast node) {
       return pointer_type(left_type, false);
     } else if (op == '!') {
       return int_type; // Logical not always returns an integer
-    } else if (op == '+' || op == '-' || op == '~' || op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
+    } else if (op == '+' || op == '-' || op == '~') {
+      return promote_type(value_type(child0));
+    } else if (op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
       // Unary operation don't change the type
       return value_type(child0);
     } else if (op == SIZEOF_KW) {
@@ -907,9 +915,14 @@ ast value_type(ast node) {
       } else if (is_pointer_type(left_type)) {
         // if left is an array or a pointer, the type is also a pointer
         return left_type;
-      } else {
-        // if left is not a pointer, the type is the type of the right operand
+      } else if (is_pointer_type(right_type)) {
         return right_type;
+      } else if (op == LSHIFT || op == RSHIFT || !is_signed_numeric_type(promote_type(left_type))) {
+        // The type of a shift is the type of its left operand.
+        // For other operators, the type is unsigned if any of the operands is unsigned
+        return promote_type(left_type);
+      } else {
+        return promote_type(right_type);
       }
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
@@ -994,7 +1007,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   int width;
   // If any of the operands is unsigned, the result is unsigned
   bool is_signed = false;
-  if (is_signed_numeric_type(left_type) && is_signed_numeric_type(right_type)) is_signed = true;
+  if (is_signed_numeric_type(promote_type(left_type))
+   && (op == RSHIFT || op == RSHIFT_EQ || is_signed_numeric_type(promote_type(right_type)))) is_signed = true;
 
   pop_reg(reg_Y); // rhs operand
   pop_reg(reg_X); // lhs operand
-- 
2.43.0


From 947295e5833a820138989f3ebf0b9d7cf038974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 14/55] fix: casts between signed and unsigned types of the
 same width convert the value

---
 exe.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index ee70bd9..f306639 100644
--- a/exe.c
+++ b/exe.c
@@ -1642,9 +1642,12 @@ void codegen_rvalue(ast node) {
       codegen_rvalue(child1);
       // If the cast is to a value narrower than the width of the value, we need
       // to truncate the value. This is done by writing the value to the stack
-      // and then reading it back, sign extending it if necessary.
+      // and then reading it back, sign extending it if necessary. The same is
+      // done when the signedness changes.
       child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      if (type_width(child0, false, false) < type_width(value_type(child1), false, false)) {
+      type1 = value_type(child1);
+      if (type_width(child0, false, false) < type_width(type1, false, false)
+       || (type_width(child0, false, false) < WORD_SIZE && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
         load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
         grow_stack(-1);
         push_reg(reg_X);
-- 
2.43.0


From 105dbb8626a6e445b7e8066f22f433b866557cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 15/55] fix: octal literals are portable across shells

---
 sh.c | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/sh.c b/sh.c
index a2deca9..83cd2b6 100644
--- a/sh.c
+++ b/sh.c
@@ -36,7 +36,6 @@ enum TEXT_NODES {
   TEXT_TREE,
   TEXT_INTEGER,
   TEXT_INTEGER_HEX,
-  TEXT_INTEGER_OCT,
   TEXT_STRING,
   TEXT_ESCAPED
 };
@@ -93,13 +92,6 @@ text wrap_int_hex(int i) {
   return (text_alloc += 2) - 2;
 }
 
-text wrap_int_oct(int i) {
-  if (text_alloc + 2 >= TEXT_POOL_SIZE) fatal_error("string tree pool overflow");
-  text_pool[text_alloc] = TEXT_FROM_INT(TEXT_INTEGER_OCT);
-  text_pool[text_alloc + 1] = TEXT_FROM_INT(i);
-  return (text_alloc += 2) - 2;
-}
-
 text wrap_integer(int multiply, int obj) {
   switch (get_op(obj)) {
     case INTEGER:
@@ -107,7 +99,8 @@ text wrap_integer(int multiply, int obj) {
     case INTEGER_HEX:
       return wrap_int_hex(multiply * -get_val_(INTEGER_HEX, obj));
     case INTEGER_OCT:
-      return wrap_int_oct(multiply * -get_val_(INTEGER_OCT, obj));
+      // ksh and mksh read numbers with a leading 0 as decimal
+      return wrap_int(multiply * -get_val_(INTEGER_OCT, obj));
     default:
       fatal_error("wrap_integer: unknown integer type");
       return 0;
@@ -213,12 +206,6 @@ void puthex_unsigned(int n) {
   putchar("0123456789abcdef"[n & 15]);
 }
 
-void putoct_unsigned(int n) {
-  // Because n is signed, we clear the upper bits after shifting in case n was negative
-  if ((n >> 3) & 0x1fffffff) putoct_unsigned((n >> 3) & 0x1fffffff);
-  putchar('0' + (n & 7));
-}
-
 void print_escaped_char(char c, int for_printf) {
   // C escape sequences
   if      (c == '\0') { putchar('\\');  putchar('0'); }
@@ -280,9 +267,6 @@ void print_escaped_text(text t, bool for_printf) {
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_INTEGER_HEX)) {
     putchar('0'); putchar('x');
     puthex_unsigned(TEXT_TO_INT(text_pool[t + 1]));
-  } else if (text_pool[t] == TEXT_FROM_INT(TEXT_INTEGER_OCT)) {
-    putchar('0'); // Note: This is not supported by zsh by default
-    putoct_unsigned(TEXT_TO_INT(text_pool[t + 1]));
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_STRING)) {
     print_escaped_string((char*) text_pool[t + 1],  (char*) text_pool[t + 2], for_printf);
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_ESCAPED)) {
@@ -315,9 +299,6 @@ void print_text(text t) {
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_INTEGER_HEX)) {
     putchar('0'); putchar('x');
     puthex_unsigned(TEXT_TO_INT(text_pool[t + 1]));
-  } else if (text_pool[t] == TEXT_FROM_INT(TEXT_INTEGER_OCT)) {
-    putchar('0'); // Note: This is not supported by zsh by default
-    putoct_unsigned(TEXT_TO_INT(text_pool[t + 1]));
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_STRING)) {
     if (TEXT_TO_INT(text_pool[t + 2]) == 0) { // null-terminated string
       putstr((char*) text_pool[t + 1]);
-- 
2.43.0


From 05c5174446856020f0a71edc8650981a99291e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 16/55] fix: parenthesize negated negations and post-increments
 in shell arithmetic

---
 sh.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 83cd2b6..9b5dd35 100644
--- a/sh.c
+++ b/sh.c
@@ -1179,6 +1179,32 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
   }
 }
 
+// Post-increments/decrements are compiled to a sum. Return true if the sum must
+// be parenthesized to be the operand of the operator. In zsh, the shift and
+// bitwise operators also bind tighter than + and -.
+bool binds_tighter_than_sum(int op) {
+  return (op == '-') | (op == '*') | (op == '/') | (op == '%') | (op == '~') | (op == '!') | (op == CAST)
+      |  (op == '&') | (op == '|') | (op == '^') | (op == LSHIFT) | (op == RSHIFT);
+}
+
+// Return true if the code of the expression starts with a unary minus.
+bool is_unary_minus(ast node) {
+  int op = get_op(node);
+
+  while (op == PARENS || op == CAST || op == '+') {
+    if (op == CAST) {
+      node = get_child_(CAST, node, 1);
+    } else {
+      if (get_nb_children(node) != 1) return false; // Addition
+      node = get_child(node, 0);
+    }
+    op = get_op(node);
+  }
+
+  if (op == '-') return get_nb_children(node) == 1;
+  return false;
+}
+
 text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op) {
   int op = get_op(node);
   int nb_children = get_nb_children(node);
@@ -1230,6 +1256,8 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
+        // -(-x) must not become the predecrement operator
+        if (op == '-' && is_unary_minus(child0)) sub1 = string_concat3(wrap_char('('), sub1, wrap_char(')'));
         return wrap_if_needed(false, context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
       }
     } else if (op == MINUS_MINUS_PRE) {
@@ -1240,10 +1268,10 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       return wrap_if_needed(true, context, test_side_effects, string_concat(sub1, wrap_str_lit(" += 1")), outer_op, op);
     } else if (op == MINUS_MINUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
     } else if (op == PLUS_PLUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
     } else if (op == SIZEOF_KW) {
       // child0 is either an abstract declaration or an expression
       if (get_op(child0) == DECL) {
-- 
2.43.0


From c7f629704c5338885c0d376e77e46351053ed1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 17/55] fix: global arrays are initialized without
 RT_NO_INIT_GLOBALS

---
 sh-runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index 54f01fc..df3da6e 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -326,7 +326,7 @@ DEPENDS_ON(malloc)
   }
 #else
 DEPENDS_ON(initialize)
-  putstr("defarr() { _malloc $1 $2; initialize_memory $@; }\n");
+  putstr("defarr() { _malloc $1 $2; initialize $@; }\n");
 #endif
 END_RUNTIME_FUN(defarr)
 
-- 
2.43.0


From fef47003af6d9881f022a4878c0c7533af35f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 18/55] fix: only struct definitions declare members in shell
 programs

---
 sh.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 9b5dd35..9e7ce3e 100644
--- a/sh.c
+++ b/sh.c
@@ -2457,7 +2457,10 @@ void handle_enum_struct_union_type_decl(ast type) {
   if (get_op(type) == ENUM_KW) {
     comp_enum_cases(get_child_opt_(ENUM_KW, IDENTIFIER, type, 1), get_child_(ENUM_KW, type, 2));
   } else if (get_op(type) == STRUCT_KW) {
-    comp_struct(get_child_opt_(STRUCT_KW, IDENTIFIER, type, 1), get_child_(STRUCT_KW, type, 2));
+    // There are no members to declare in a reference to a struct or a forward declaration
+    if (get_child_(STRUCT_KW, type, 2) != 0) {
+      comp_struct(get_child_opt_(STRUCT_KW, IDENTIFIER, type, 1), get_child_(STRUCT_KW, type, 2));
+    }
   } else if (get_op(type) == UNION_KW) {
     fatal_error("handle_enum_struct_union_type_decl: union not supported");
   }
-- 
2.43.0


From 2aed7328ce0687ac6e3782105529cac5126654a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 19/55] fix: chained equality keeps its parentheses in shell
 programs

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 9e7ce3e..6a8555d 100644
--- a/sh.c
+++ b/sh.c
@@ -1142,7 +1142,7 @@ text with_prefixed_side_effects(ast test_side_effects, text code) {
 // Associative operators can be chained without parentheses.
 bool is_associative_operator(int op) {
   return (op == '+')   | (op == '*')     | (op == '&')    | (op == '|')    | (op == '^')
-      |  (op == EQ_EQ) | (op == AMP_AMP) | (op == BAR_BAR);
+      |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
-- 
2.43.0


From a3c7dfe421077c0a1fcb2ede60aa27e9204bb902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 20/55] fix: terms of addresses are parenthesized in shell
 programs

---
 sh.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/sh.c b/sh.c
index 6a8555d..2e31bb0 100644
--- a/sh.c
+++ b/sh.c
@@ -1298,7 +1298,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return 0;
       }
     } else if (op == '&') {
-      return wrap_if_needed(false, context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
+      return wrap_if_needed(true, context, test_side_effects, comp_lvalue_address(child0), outer_op, '+');
     } else {
       printf("op=%d %c", op, op);
       fatal_error("comp_rvalue_go: unexpected operator");
@@ -1391,7 +1391,20 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
   }
 }
 
-text comp_rvalue(ast node, int context) {
+// Return the operator of which the expression is the operand when it's one of
+// the terms of an address (0 if the term doesn't need parentheses).
+int address_term_op(ast node) {
+  int op;
+
+  while (get_op(node) == PARENS) node = get_child_(PARENS, node, 0);
+
+  op = get_op(node);
+  if (op == '+' || op == '-' || op == '*' || op == '/' || op == '%') return 0;
+  return '+';
+}
+
+// Compile the rvalue as the operand of the operator outer_op (0 if there's none)
+text comp_rvalue_operand(ast node, int context, int outer_op) {
   ast simple_ast = handle_side_effects(node);
   // Calling comp_fun_call/comp_rvalue can overwrite replaced_fun_calls and contains_side_effects, so they are saved
   ast replaced_fun_calls2 = replaced_fun_calls;
@@ -1428,14 +1441,22 @@ text comp_rvalue(ast node, int context) {
   if (context == RVALUE_CTX_TEST || context == RVALUE_CTX_TEST_ELSEIF) {
     undo_glo_decls(fun_call_decl_start);
     result = replay_glo_decls_inline(fun_call_decl_start, glo_decl_ix);
-    result = string_concat(result, comp_rvalue_go(simple_ast, RVALUE_CTX_TEST, 0, 0));
+    result = string_concat(result, comp_rvalue_go(simple_ast, RVALUE_CTX_TEST, 0, outer_op));
   } else {
-    result = comp_rvalue_go(simple_ast, context, 0, 0);
+    result = comp_rvalue_go(simple_ast, context, 0, outer_op);
   }
   contains_side_effects |= contains_side_effects2;
   return result;
 }
 
+text comp_rvalue(ast node, int context) {
+  return comp_rvalue_operand(node, context, 0);
+}
+
+text comp_address_term(ast node) {
+  return comp_rvalue_operand(node, RVALUE_CTX_ARITH_EXPANSION, address_term_op(node));
+}
+
 // Unlike in the native backend, there are 2 ways to compile a lvalue.
 //
 // The first (comp_lvalue) returns the variable that represent the memory
@@ -1462,13 +1483,13 @@ text comp_lvalue_address(ast node) {
     fatal_error("comp_rvalue_go: can't take the address of a local variable");
     return 0;
   } else if (op == '[') {
-    sub1 = comp_rvalue(get_child_('[', node, 0), RVALUE_CTX_ARITH_EXPANSION);
-    sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_term(get_child_('[', node, 0));
+    sub2 = comp_address_term(get_child_('[', node, 1));
     return string_concat3(sub1, wrap_str_lit(" + "), sub2);
   } else if (op == '*') {
     return comp_rvalue(get_child_('*', node, 0), RVALUE_CTX_BASE);
   } else if (op == ARROW) {
-    sub1 = comp_rvalue(get_child_(ARROW, node, 0), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_term(get_child_(ARROW, node, 0));
     sub2 = struct_member_var(get_child_(ARROW, node, 1));
     return string_concat3(sub1, wrap_str_lit(" + "), sub2);
   } else if (op == CAST) {
@@ -1490,20 +1511,20 @@ text comp_lvalue(ast node) {
   if (op == IDENTIFIER || op == IDENTIFIER_INTERNAL || op == IDENTIFIER_STRING || op == IDENTIFIER_EMPTY || op == IDENTIFIER_DOLLAR) {
     return env_var(node);
   } else if (op == '[') {
-    sub1 = comp_rvalue(get_child_('[', node, 0), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_term(get_child_('[', node, 0));
     sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
     return string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))"));
   } else if (op == '*') {
     sub1 = comp_rvalue(get_child_('*', node, 0), RVALUE_CTX_BASE);
     return string_concat(wrap_char('_'), sub1);
   } else if (op == ARROW) {
-    sub1 = comp_rvalue(get_child_(ARROW, node, 0), RVALUE_CTX_ARITH_EXPANSION);
+    sub1 = comp_address_term(get_child_(ARROW, node, 0));
     sub2 = struct_member_var(get_child_(ARROW, node, 1));
     return string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))"));
   } else if (op == CAST) {
     return comp_lvalue(get_child_(CAST, node, 1));
   } else if (op == PARENS) {
-    return comp_lvalue_address(get_child_(PARENS, node, 0));
+    return comp_lvalue(get_child_(PARENS, node, 0));
   } else {
     printf("op=%d %c\n", op, op);
     fatal_error("comp_lvalue: unknown lvalue");
-- 
2.43.0


From 182b3dddcc2442cbfe7379967121b8720e0e704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 21/55] fix: bitwise and logical negation of integer literals
 in shell programs

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 2e31bb0..26dddae 100644
--- a/sh.c
+++ b/sh.c
@@ -1252,7 +1252,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // +x is equivalent to x
       return comp_rvalue_go(child0, context, test_side_effects, outer_op);
     } else if (op == '-' || op == '~' || op == '!') {
-      if (get_op(child0) == INTEGER || op == INTEGER_HEX || op == INTEGER_OCT) {
+      if (op == '-' && get_op(child0) == INTEGER) {
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
-- 
2.43.0


From 0d2d8a5b1e220cb0b71483a0e52219f48756038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 22/55] fix: printf calls after %s only take their own
 arguments in shell programs

---
 sh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sh.c b/sh.c
index 26dddae..b6f3d95 100644
--- a/sh.c
+++ b/sh.c
@@ -1618,6 +1618,7 @@ void handle_printf_call(char *format_str, ast params) {
   bool mod = false;
   bool has_width = false;
   bool has_precision = false;
+  bool params_printed = false; // If params_text was already passed to printf
 
   enum PRINTF_STATE state = PRINTF_STATE_FLAGS;
 
@@ -1727,6 +1728,7 @@ void handle_printf_call(char *format_str, ast params) {
             format_start = format_str + 1;
             // Compile printf("...%s...", str) to _put_pstr str
             append_glo_decl(string_concat(wrap_str_lit("_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE)));
+            params_printed = true;
           }
           param = 0; // Consume param
           mod = false;
@@ -1743,6 +1745,8 @@ void handle_printf_call(char *format_str, ast params) {
       // Reset the state machine
       width_text = precision_text = has_width = has_precision = 0;
       state = PRINTF_STATE_FLAGS;
+      // The following printf call only takes the parameters of its own specifiers
+      if (params_printed) { params_text = 0; params_printed = false; }
     }
 
     // Keep accumulating the format string
-- 
2.43.0


From 332b93959ac3ab4b7cb709afeae9492bdeea9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 23/55] fix: printf without arguments follows its format in
 shell programs

---
 sh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index b6f3d95..9abd946 100644
--- a/sh.c
+++ b/sh.c
@@ -1767,11 +1767,11 @@ text comp_fun_call_code(ast node, ast assign_to) {
 
 #ifdef SH_AVOID_PRINTF_USE
   if (get_op(assign_to) == IDENTIFIER_EMPTY) {
-    if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
+    if (((name_id == PUTS_ID || name_id == PUTSTR_ID)
         && (param = list_singleton(params)) != 0
-        && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
+        && get_op(param) == STRING)) { // puts("..."), putstr("...")
       return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, true);
-    } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
+    } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("..."), printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
     }
-- 
2.43.0


From dc82b50d0040a5ccd8c46163e0423856f012a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 24/55] fix: initialize arrays declared after uninitialized
 ones in shell programs

---
 sh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sh.c b/sh.c
index 9abd946..99c1e35 100644
--- a/sh.c
+++ b/sh.c
@@ -2353,6 +2353,11 @@ void comp_glo_var_decl(ast node) {
         if (get_op(init) != INITIALIZER_LIST) fatal_error("Array declaration with invalid initializer");
         init = get_child_(INITIALIZER_LIST, init, 0);
 
+#ifdef RT_NO_INIT_GLOBALS
+        // A previous array declaration may have already defined the version of
+        // defarr that doesn't support initialization.
+        if (!runtime_use_initialize) runtime_defarr_defined = false;
+#endif
         runtime_use_initialize = true;
         init_len = initializer_list_len(init);
         args = comp_initializer_list(init, arr_len);
-- 
2.43.0


From 8fe223f929365608806602557cf2849e0d4345dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 25/55] fix: the default case of a switch is tried last in
 shell programs

---
 sh.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sh.c b/sh.c
index 99c1e35..d1708a4 100644
--- a/sh.c
+++ b/sh.c
@@ -1891,9 +1891,18 @@ text make_switch_pattern(ast statement) {
   }
 }
 
+// Return true if one of the labels of the statement is the default label.
+bool has_default_label(ast statement) {
+  while (get_op(statement) == CASE_KW) statement = get_child_(CASE_KW, statement, 1);
+  return get_op(statement) == DEFAULT_KW;
+}
+
 bool comp_switch(ast node) {
   ast statement;
   int start_cgc_locals = cgc_locals;
+  int start_glo_decl_idx;
+  int default_start = 0, default_end = 0; // Declarations of the default case, if it's not the last
+  bool is_default;
 
   append_glo_decl(string_concat3(
       wrap_str_lit("case "),
@@ -1918,6 +1927,9 @@ bool comp_switch(ast node) {
     statement = get_child_('{', node, 0);
     node = get_child_('{', node, 1);
 
+    start_glo_decl_idx = glo_decl_ix;
+    is_default = has_default_label(statement);
+
     append_glo_decl(make_switch_pattern(statement));
     statement = last_stmt; // last_stmt is set by make_switch_pattern
 
@@ -1939,8 +1951,17 @@ bool comp_switch(ast node) {
 
     nest_level -= 1;
     append_glo_decl(wrap_str_lit(";;"));
+
+    // The patterns are tried in order, so the default case must come last
+    if (is_default && get_op(node) == '{') {
+      undo_glo_decls(start_glo_decl_idx);
+      default_start = start_glo_decl_idx;
+      default_end = glo_decl_ix;
+    }
   }
 
+  replay_glo_decls(default_start, default_end, false);
+
   nest_level -= 1;
   append_glo_decl(wrap_str_lit("esac"));
 
-- 
2.43.0


From be2cf906597dd1adcd1b8dbcdf241025f70f92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 26/55] fix: the type of a conditional expression depends on
 both cases

---
 exe.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index f306639..1022015 100644
--- a/exe.c
+++ b/exe.c
@@ -980,8 +980,17 @@ ast value_type(ast node) {
   } else if (nb_children == 3) {
 
     if (op == '?') {
-      // We assume that the 2 cases have the same type.
-      return value_type(child1);
+      left_type = value_type(child1);
+      right_type = value_type(get_child(node, 2));
+      if (is_numeric_type(left_type) && is_numeric_type(right_type)) {
+        // The type is unsigned if any of the 2 cases is unsigned
+        if (is_signed_numeric_type(promote_type(left_type))) left_type = right_type;
+        return promote_type(left_type);
+      } else if (is_numeric_type(left_type) && is_pointer_type(right_type)) {
+        return right_type; // Null pointer and pointer
+      } else {
+        return left_type; // We assume that the 2 cases have the same type.
+      }
     } else {
       putstr("op="); putint(op); putchar('\n');
       fatal_error("value_type: unknown expression with 3 children");
-- 
2.43.0


From 01e49702924aac80cfd790c1f6d35e0c093df6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 27/55] fix: getchar of release shell programs returns no
 characters that are not in the input

---
 sh-runtime.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index df3da6e..fb610c3 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -525,9 +525,8 @@ DEPENDS_ON(char_to_int)
 #ifdef OPTIMIZE_LONG_LINES
   putstr("__stdin_buf16=\n");
   putstr("__stdin_buf256=\n");
-  putstr("__stdin_end=1\n");
   putstr("_getchar() {\n");
-  putstr("  if [ -z \"$__stdin_buf16\" ] && [ $__stdin_end -eq 1 ] ; then          # need to get next line when buffer empty\n");
+  putstr("  if [ -z \"$__stdin_buf16$__stdin_buf256$__stdin_buf\" ] ; then # need to get next line when buffers empty\n");
 #else
   putstr("_getchar() {\n");
   putstr("  if [ -z \"$__stdin_buf\" ]; then          # need to get next line when buffer empty\n");
@@ -537,9 +536,6 @@ DEPENDS_ON(char_to_int)
   putstr("      __stdin_line_ending=0                  # Reset line ending for next getchar call\n");
   putstr("      return\n");
   putstr("    fi\n");
-#ifdef OPTIMIZE_LONG_LINES
-  putstr("    __stdin_end=0\n");
-#endif
   putstr("    IFS=                                            # don't split input\n");
   putstr("    if read -r __stdin_buf ; then                   # read next line into $__stdin_buf\n");
   putstr("      if [ -z \"$__stdin_buf\" ] ; then               # an empty line implies a newline character\n");
@@ -558,7 +554,7 @@ DEPENDS_ON(char_to_int)
   putstr("  fi\n");
 #ifdef OPTIMIZE_LONG_LINES
   extract_line_head("  ", "__stdin_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
-  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "      __stdin_end=1\n")
+  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "")
   extract_first_char("", "__stdin_buf16", "$1")
   putstr("  __stdin_buf16=${__stdin_buf16#?}  # Remove the first character\n");
 #else
-- 
2.43.0


From 33928e32d2bb442bbe5ebc9e235acd1c73c78976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 28/55] fix: fgetc and read keep the line buffer of getchar

---
 sh-runtime.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index fb610c3..c918dca 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -524,9 +524,9 @@ DEPENDS_ON(char_to_int)
   putstr("__stdin_line_ending=0 # Line ending, either -1 (EOF) or 10 ('\\n')\n");
 #ifdef OPTIMIZE_LONG_LINES
   putstr("__stdin_buf16=\n");
-  putstr("__stdin_buf256=\n");
+  putstr("__getchar_buf256=\n");
   putstr("_getchar() {\n");
-  putstr("  if [ -z \"$__stdin_buf16$__stdin_buf256$__stdin_buf\" ] ; then # need to get next line when buffers empty\n");
+  putstr("  if [ -z \"$__stdin_buf16$__getchar_buf256$__stdin_buf\" ] ; then # need to get next line when buffers empty\n");
 #else
   putstr("_getchar() {\n");
   putstr("  if [ -z \"$__stdin_buf\" ]; then          # need to get next line when buffer empty\n");
@@ -553,8 +553,8 @@ DEPENDS_ON(char_to_int)
   putstr("    fi\n");
   putstr("  fi\n");
 #ifdef OPTIMIZE_LONG_LINES
-  extract_line_head("  ", "__stdin_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
-  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "")
+  extract_line_head("  ", "__getchar_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
+  extract_line_head("  ", "__stdin_buf16", "__getchar_buf256", ANY_STRING_16, "16", "")
   extract_first_char("", "__stdin_buf16", "$1")
   putstr("  __stdin_buf16=${__stdin_buf16#?}  # Remove the first character\n");
 #else
-- 
2.43.0


From ef55f1b5f213ca341dd5f03f3592652724880c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 29/55] fix: report output files that cannot be opened or
 written

---
 exe.c  | 2 +-
 pnut.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 1022015..23fa4b6 100644
--- a/exe.c
+++ b/exe.c
@@ -60,7 +60,7 @@ void emit_i64_le_large_imm(int imm_obj) {
 char write_buf[1];
 void write_i8(int n) {
   write_buf[0] = (n & 0xff);
-  write(output_fd, write_buf, 1);
+  if (write(output_fd, write_buf, 1) != 1) fatal_error("could not write to the output file");
 }
 
 void write_2_i8(int a, int b) {
diff --git a/pnut.c b/pnut.c
index 3bb6a91..b070296 100644
--- a/pnut.c
+++ b/pnut.c
@@ -4021,6 +4021,7 @@ int main(int argc, char **argv) {
           } else {
             output_fd = open(argv[i] + 2, O_WRONLY | O_CREAT | O_TRUNC, 0644);
           }
+          if (output_fd < 0) fatal_error("could not open the output file");
           break;
 
         case 'D':
-- 
2.43.0


From 7602eadabfa67562a27f66b178ed045df59c4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 30/55] fix: report errors of writes to standard output

---
 pnut.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pnut.c b/pnut.c
index b070296..58a3464 100644
--- a/pnut.c
+++ b/pnut.c
@@ -4115,5 +4115,10 @@ int main(int argc, char **argv) {
   codegen_end();
 #endif
 
+#ifndef PNUT_CC
+  // Standard output is buffered, report what could not be written
+  if (fflush(stdout) != 0 || ferror(stdout)) fatal_error("could not write the output");
+#endif
+
   return 0;
 }
-- 
2.43.0


From 2fb20e721b0100d3bbac663c567f38b8f479ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 31/55] fix: report errors reading source files

---
 pnut.c | 3 +++
 sh.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pnut.c b/pnut.c
index 58a3464..8c25c5a 100644
--- a/pnut.c
+++ b/pnut.c
@@ -830,6 +830,9 @@ void get_ch() {
   ch = fgetc(fp);
 
   if (ch == EOF) {
+#ifndef PNUT_CC
+    if (ferror(fp)) fatal_error("Could not read file");
+#endif
     // If it's not the last file on the stack, EOF means that we need to switch to the next file
     if (include_stack->next != 0) {
       fclose(include_stack->fp);
diff --git a/sh.c b/sh.c
index d1708a4..98cc5fa 100644
--- a/sh.c
+++ b/sh.c
@@ -15,6 +15,9 @@ void handle_shell_include() {
     while ((c = fgetc(shell_include_fp)) != EOF) {
       putchar(c);
     }
+#ifndef PNUT_CC
+    if (ferror(shell_include_fp)) fatal_error("Could not read file");
+#endif
     putchar('\n');
     fclose(shell_include_fp);
     get_tok_macro(); // Skip the string
-- 
2.43.0


From 6409b88a6ab956f38a27c9e5e9cdda29e30eb8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 32/55] fix: flags of open in the self-compiled macOS compiler

---
 pnut.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pnut.c b/pnut.c
index 8c25c5a..b00f39b 100644
--- a/pnut.c
+++ b/pnut.c
@@ -24,6 +24,10 @@ typedef int intptr_t;
 #define O_WRONLY 01
 #define O_CREAT  00
 #define O_TRUNC  00
+#elif defined(PNUT_X86_64_MAC)
+#define O_WRONLY 01
+#define O_CREAT  01000
+#define O_TRUNC  02000
 #else
 #define O_WRONLY 01
 #define O_CREAT  0100
-- 
2.43.0


From ef9ac574595104ea00bb08015f39cc6ae8c0678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 33/55] fix: #include directives that end a file

---
 pnut.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pnut.c b/pnut.c
index b00f39b..6b36367 100644
--- a/pnut.c
+++ b/pnut.c
@@ -157,6 +157,7 @@ struct IncludeStack {
   struct IncludeStack *next;
   char *dirname;  // The base path of the file, used to resolve relative paths
   char *filepath; // The path of the file, used to print error messages
+  bool ended;     // The newline that stands for the end of the file was read
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
   int line_number;
   int column_number;
@@ -834,11 +835,8 @@ void get_ch() {
   ch = fgetc(fp);
 
   if (ch == EOF) {
-#ifndef PNUT_CC
-    if (ferror(fp)) fatal_error("Could not read file");
-#endif
-    // If it's not the last file on the stack, EOF means that we need to switch to the next file
-    if (include_stack->next != 0) {
+    // At the end of an included file, switch back to the file that included it
+    while (ch == EOF && include_stack->ended) {
       fclose(include_stack->fp);
       include_stack2 = include_stack;
       include_stack = include_stack->next;
@@ -851,16 +849,25 @@ void get_ch() {
       // Not freeing include_stack2->filepath because it may not be dynamically allocated
       free(include_stack2->dirname);
       free(include_stack2);
-      // EOF is treated as a newline so that files without a newline at the end are still parsed correctly
-      // On the next get_ch call, the first character of the next file will be read
+      ch = fgetc(fp);
+    }
+#ifndef PNUT_CC
+    if (ferror(fp)) fatal_error("Could not read file");
+#endif
+    // If it's not the last file on the stack, EOF is treated as a newline so
+    // that files without a newline at the end are still parsed correctly. The
+    // file remains current because its last line may be an #include directive.
+    // On the next get_ch call, the first character of the next file will be read.
+    if (ch == EOF && include_stack->next != 0) {
+      include_stack->ended = true;
       ch = '\n';
     }
   }
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
-  else if (ch == '\n') {
+  if (ch == '\n') {
     line_number += 1;
     column_number = 0;
-  } else {
+  } else if (ch != EOF) {
     column_number += 1;
   }
 #endif
@@ -949,12 +956,15 @@ FILE *fopen_source_file(char *file_name, char *relative_to) {
 }
 
 void include_file(char *file_name, char *relative_to) {
+  // An #include directive at the end of the file has no newline to read the included file after
+  if (ch == EOF) ch = '\n';
   fp = fopen_source_file(file_name, relative_to);
   include_stack2 = malloc(sizeof(struct IncludeStack));
   include_stack2->next = include_stack;
   include_stack2->fp = fp;
   include_stack2->dirname = file_parent_directory(fp_filepath);
   include_stack2->filepath = fp_filepath;
+  include_stack2->ended = false;
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
   include_stack2->line_number = 1;
   include_stack2->column_number = 0;
-- 
2.43.0


From ec8c60e593741d0eec80f7fe7c7e4fac79175c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 34/55] fix: blanks and comments after #include directives

---
 pnut.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pnut.c b/pnut.c
index 6b36367..3354664 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1434,8 +1434,37 @@ int evaluate_if_condition() {
   return eval_constant(expr, true);
 }
 
+// Skip blanks and comments up to the newline, after which the included file is read
+void skip_to_end_of_include() {
+  while (ch != '\n' && ch != EOF) {
+    if (ch == '/') {
+      get_ch();
+      if (ch == '/') {
+        while (ch != '\n' && ch != EOF) get_ch();
+      } else if (ch == '*') {
+        get_ch();
+        tok = ch; // remember previous char, except first one
+        get_ch();
+        while ((tok != '*' || ch != '/') && ch != EOF) {
+          tok = ch;
+          get_ch();
+        }
+        if (ch == EOF) syntax_error("unterminated comment");
+        get_ch();
+      } else {
+        syntax_error("preprocessor expected end of line");
+      }
+    } else if (0 <= ch && ch <= ' ') {
+      get_ch();
+    } else {
+      syntax_error("preprocessor expected end of line");
+    }
+  }
+}
+
 void handle_include() {
   if (tok == STRING) {
+    skip_to_end_of_include();
     include_file(STRING_BUF(val), include_stack->dirname);
 #ifdef DEBUG_EXPAND_INCLUDES
     // When running pnut in "expand includes" mode, we want to annotate the
@@ -1450,6 +1479,7 @@ void handle_include() {
     // #include <file> directives only take effect if the search path is provided
     // TODO: Issue a warning to stderr when skipping the directive
     if (include_search_path != 0) {
+      skip_to_end_of_include();
       include_file(STRING_BUF(val), include_search_path);
     }
     get_tok_macro(); // Skip the string
-- 
2.43.0


From aaee3de080d2da95eabade2b739b455e6ee995fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 35/55] fix: unsupported preprocessor directives that are not
 identifiers

---
 pnut.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 3354664..f6293a4 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1568,7 +1568,9 @@ void handle_preprocessor_directive() {
       tok = '\n';
 #endif
     } else {
-      putstr("tok="); putint(tok); putstr(": "); putstr(STRING_BUF(val)); putchar('\n');
+      putstr("tok="); putint(tok);
+      if (tok == IDENTIFIER || tok == MACRO) { putstr(": "); putstr(STRING_BUF(val)); }
+      putchar('\n');
       syntax_error("unsupported preprocessor directive");
     }
   } else {
-- 
2.43.0


From fe7c2c378d14a9172dcf1ceed266742bb6d23114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 36/55] fix: overflow of the C code buffer of SH_INCLUDE_C_CODE

---
 pnut.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pnut.c b/pnut.c
index f6293a4..9093c18 100644
--- a/pnut.c
+++ b/pnut.c
@@ -873,6 +873,9 @@ void get_ch() {
 #endif
 #ifdef SH_INCLUDE_C_CODE
   // Save C code chars so they can be displayed with the shell code
+  if (code_char_buf_ix >= C_CODE_BUF_LEN) {
+    fatal_error("C code buffer overflow");
+  }
   code_char_buf[code_char_buf_ix] = ch;
   code_char_buf_ix += 1;
 #endif
-- 
2.43.0


From c61739316c61fa6d9f06f228de12a4164ac5ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 37/55] fix: overflow of glo_decls in the shell backend

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index 98cc5fa..2835da1 100644
--- a/sh.c
+++ b/sh.c
@@ -356,6 +356,7 @@ void init_comp_context() {
 }
 
 void append_glo_decl(text decl) {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("glo_decls overflow");
   glo_decls[glo_decl_ix] = nest_level;
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = decl;
@@ -363,6 +364,7 @@ void append_glo_decl(text decl) {
 }
 
 int append_glo_decl_fixup() {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("glo_decls overflow");
   glo_decls[glo_decl_ix] = -nest_level; // Negative value to indicate that it's a fixup
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = 0;
-- 
2.43.0


From af8020242ab943c34cafc23d0fe99fe07130235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 38/55] fix: overflow of the label table of SAFE_MODE

---
 exe.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 23fa4b6..fed1367 100644
--- a/exe.c
+++ b/exe.c
@@ -370,7 +370,8 @@ enum {
 };
 
 #ifdef SAFE_MODE
-int labels[100000];
+#define MAX_LABELS 100000
+int labels[MAX_LABELS];
 int labels_ix = 0;
 
 void assert_all_labels_defined() {
@@ -393,6 +394,7 @@ void assert_all_labels_defined() {
 }
 
 void add_label(int lbl) {
+  if (labels_ix >= MAX_LABELS) fatal_error("labels overflow");
   labels[labels_ix++] = lbl;
 }
 
-- 
2.43.0


From 9c6784592d6873d54cc0375e042c003528b4b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 39/55] fix: sizes of arrays, structs and global variables that
 overflow

---
 env.c  | 1 +
 exe.c  | 5 ++++-
 pnut.c | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/env.c b/env.c
index 2f8d8e4..dc604b7 100644
--- a/env.c
+++ b/env.c
@@ -186,6 +186,7 @@ void cgc_add_enclosing_switch(int loop_fs, int break_lbl, int next_case_lbl) {
 
 void cgc_add_global(int ident, int width, ast type, bool is_static_local) {
   int binding = alloc_obj(5);
+  if (cgc_global_alloc > 2147483647 - width) fatal_error("too many global variables");
   heap[binding+0] = is_static_local ? cgc_locals : cgc_globals;
   heap[binding+1] = BINDING_VAR_GLOBAL;
   heap[binding+2] = ident;
diff --git a/exe.c b/exe.c
index fed1367..eb9eaf9 100644
--- a/exe.c
+++ b/exe.c
@@ -636,7 +636,9 @@ int type_width(ast type, bool array_value, bool word_align) {
       // sizeof, in struct definitions, etc.) while in other contexts we care
       // about the pointer (i.e. when passing an array to a function, etc.)
       if (array_value) {
-        width = get_child_('[', type, 1) * type_width(get_child_('[', type, 0), true, false);
+        width = type_width(get_child_('[', type, 0), true, false);
+        if (width != 0 && get_child_('[', type, 1) > (2147483647 - WORD_SIZE) / width) fatal_error("array is too large");
+        width *= get_child_('[', type, 1);
       } else {
         width = WORD_SIZE; // Array is a pointer to the first element
       }
@@ -732,6 +734,7 @@ int struct_union_size(ast type) {
     member_size = type_width(member_type, true, false);
     largest_submember_size = type_largest_member(member_type);
     if (member_size != 0) sum_size = align_to(largest_submember_size, sum_size); // Align the member to the word size
+    if (sum_size > 2147483647 - member_size - WORD_SIZE) fatal_error("struct is too large");
     sum_size += member_size;                                          // Struct size is the sum of its members
     if (member_size > max_size) max_size = member_size;               // Union size is the max of its members
     if (largest_member_size < largest_submember_size) largest_member_size = largest_submember_size;
diff --git a/pnut.c b/pnut.c
index 9093c18..ee89904 100644
--- a/pnut.c
+++ b/pnut.c
@@ -3136,6 +3136,7 @@ ast parse_declarator(bool abstract_decl, ast parent_type) {
         arr_size_expr = parse_assignment_expression();
         if (arr_size_expr == 0) parse_error("Array size must be an integer constant", tok);
         val = eval_constant(arr_size_expr, false);
+        if (val < 0) parse_error("Array size must not be negative", tok);
       }
       result = new_ast2('[', get_inner_type(parent_type_parent), val);
       update_inner_type(parent_type_parent, result);
-- 
2.43.0


From f6c4b3d6076069d93aa9cb1eb9acf9a97e783fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 40/55] fix: && and || in #if conditions yield 0 or 1, not the
 operand

---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index ee89904..ca07e2e 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1385,12 +1385,12 @@ int eval_constant(ast expr, bool if_macro) {
     case AMP_AMP:
       op1 = eval_constant(child0, if_macro);
       if (!op1) return 0;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case BAR_BAR:
       op1 = eval_constant(child0, if_macro);
       if (op1) return 1;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case '(': // defined operators are represented as fun calls
       if (if_macro && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
-- 
2.43.0


From c22b698f43c2cb5f0c3052b6c6ff89399956cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 41/55] fix: pasting a 0 after an integer appends a digit

---
 pnut.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pnut.c b/pnut.c
index ca07e2e..658ff4b 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1984,6 +1984,8 @@ int paste_integers(int left_val, int right_val) {
 #ifdef SUPPORT_64_BIT_LITERALS
   if (left_val < 0 || right_val < 0) fatal_error("Only small integers can be pasted");
 #endif
+  result *= 10; // The right-hand side has at least one digit, even if it's 0
+  right_digits /= 10;
   while (right_digits > 0) {
     result *= 10;
     right_digits /= 10;
-- 
2.43.0


From deda1174ed23e3f3c3a94c0e04e740486de4d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:56 +0000
Subject: [PATCH 42/55] fix: calls in the right operand of && and || are kept
 when a ternary follows them

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index 2835da1..3c27d8b 100644
--- a/sh.c
+++ b/sh.c
@@ -1026,6 +1026,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     if (left_conditional_fun_calls != 0 || right_conditional_fun_calls != 0) {
       fatal_error("Conditional function calls in ternary operator not allowed");
     }
+    conditional_fun_calls = previous_conditional_fun_calls;
 
     return new_ast3('?', handle_side_effects_go(child0, executes_conditionally), sub1, sub2);
   } else {
-- 
2.43.0


From 57985d8456fc169ddee4c345493361757e1ab04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 43/55] fix: the label of a goto is kept when the token after
 it comes from a macro

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 658ff4b..5f63c32 100644
--- a/pnut.c
+++ b/pnut.c
@@ -3889,8 +3889,8 @@ ast parse_statement() {
   } else if (tok == GOTO_KW) {
 
     get_tok();
-    expect_tok(IDENTIFIER);
     result = new_ast1(GOTO_KW, new_ast0(IDENTIFIER, val));
+    expect_tok(IDENTIFIER); // Reads the next token, which may overwrite val
     expect_tok(';');
 
   } else if (tok == CONTINUE_KW) {
-- 
2.43.0


From c5f4aa5c0b143a131f71bb35682b56cc47f1f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 44/55] fix: an empty statement after a case label no longer
 loops or fails in pnut-sh

---
 sh.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index 3c27d8b..22aa41d 100644
--- a/sh.c
+++ b/sh.c
@@ -1872,9 +1872,12 @@ bool comp_body(ast node, STMT_CTX stmt_ctx) {
 ast last_stmt;
 text make_switch_pattern(ast statement) {
   text str = 0;
+  int op;
 
-  while (1) { // statement will never be null
-    switch (get_op(statement)) {
+  while (1) {
+    op = 0;
+    if (statement != 0) op = get_op(statement); // The empty statement is null
+    switch (op) {
       case DEFAULT_KW:
         str = wrap_char('*');
         statement = get_child_(DEFAULT_KW, statement, 0);
@@ -1899,7 +1902,8 @@ text make_switch_pattern(ast statement) {
 
 // Return true if one of the labels of the statement is the default label.
 bool has_default_label(ast statement) {
-  while (get_op(statement) == CASE_KW) statement = get_child_(CASE_KW, statement, 1);
+  while (statement != 0 && get_op(statement) == CASE_KW) statement = get_child_(CASE_KW, statement, 1);
+  if (statement == 0) return false; // The empty statement is null
   return get_op(statement) == DEFAULT_KW;
 }
 
-- 
2.43.0


From 38ce91d284665ff782cc59d5bc44c3d2f3077039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:11 +0000
Subject: [PATCH 45/55] fix: the length modifier l is left out of the shell's
 printf, which some shells reject

---
 sh.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sh.c b/sh.c
index 22aa41d..7840722 100644
--- a/sh.c
+++ b/sh.c
@@ -1591,12 +1591,17 @@ text comp_putchar_inline(ast param) {
 
 #ifdef SH_AVOID_PRINTF_USE
 // format_str is from the string pool so immutable
-text printf_call(char *format_str, char *format_str_end, text params_text, bool escape) {
-  if (format_str == format_str_end) {
+// The format string is made of the format_text text, if any, followed by the
+// characters from format_str to format_str_end.
+text printf_call(text format_text, char *format_str, char *format_str_end, text params_text, bool escape) {
+  text prefix = wrap_str_lit("printf \"");
+  if (format_text == 0 && format_str == format_str_end) {
     return 0;
   } else {
     // Some shells interpret leading - as options. In that case, we add -- in front of the format string.
-    return string_concat3(wrap_str_lit(format_str[0] == '-' ? "printf -- \"" : "printf \""),
+    if (format_text != 0 || format_str[0] == '-') prefix = wrap_str_lit("printf -- \"");
+    return string_concat4(prefix,
+                          format_text,
                           escape_text(wrap_str_imm(format_str, format_str_end), escape),
                           concatenate_strings_with(wrap_char('\"'), params_text, wrap_char(' '))
                           );
@@ -1618,6 +1623,7 @@ void handle_printf_call(char *format_str, ast params) {
   ast param = 0; // Next parameter, if any
   char *format_start = format_str;
   char *specifier_start;
+  text format_text = 0; // Part of the format string before format_start
   // compiled parameters to be passed to printf
   text params_text = 0, width_text = 0, precision_text = 0;
 
@@ -1683,7 +1689,10 @@ void handle_printf_call(char *format_str, ast params) {
         // The following options are the same between the shell's printf and C's printf
         case 'l': case 'd': case 'i': case 'o': case 'u': case 'x': case 'X':
           if (*format_str == 'l') {
+            // Not all shells support the 'l' for long, so it's left out of the format string
+            format_text = string_concat(format_text, escape_text(wrap_str_imm(format_start, format_str), false));
             while (*format_str == 'l') format_str += 1; // Skip the 'l' for long
+            format_start = format_str;
             if (*format_str != 'd' && *format_str != 'i' && *format_str != 'o' && *format_str != 'u' && *format_str != 'x' && *format_str != 'X') {
               printf("*format_str=%c%c\n", *(format_str - 1), *format_str);
               fatal_error("Invalid printf format: Unsupported long specifier");
@@ -1707,9 +1716,10 @@ void handle_printf_call(char *format_str, ast params) {
           // TODO: Find way to support width that's not too verbose
           if (has_width)   fatal_error("Width not supported for %c");
           // Generate printf call with what we have so far
-          append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+          append_glo_decl(printf_call(format_text, format_start, specifier_start, params_text, false));
           // New format string starts after the %
           format_start = format_str + 1;
+          format_text = 0;
           // Generate the printf call for the character
           append_glo_decl(comp_putchar_inline(param));
           param = 0; // Consume param
@@ -1729,9 +1739,10 @@ void handle_printf_call(char *format_str, ast params) {
             params_text = concatenate_strings_with(params_text, string_concat3(wrap_str_lit("\"$(_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE), wrap_str_lit(")\"")), wrap_char(' ')); // Add the parameter
           } else {
             // Generate printf call with what we have so far
-            append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+            append_glo_decl(printf_call(format_text, format_start, specifier_start, params_text, false));
             // New format string starts after the %
             format_start = format_str + 1;
+            format_text = 0;
             // Compile printf("...%s...", str) to _put_pstr str
             append_glo_decl(string_concat(wrap_str_lit("_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE)));
             params_printed = true;
@@ -1760,7 +1771,7 @@ void handle_printf_call(char *format_str, ast params) {
   }
 
   // Dump the remaining format string
-  append_glo_decl(printf_call(format_start, format_str, params_text, false));
+  append_glo_decl(printf_call(format_text, format_start, format_str, params_text, false));
 }
 #endif
 
@@ -1776,7 +1787,7 @@ text comp_fun_call_code(ast node, ast assign_to) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID)
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("...")
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, true);
+      return printf_call(0, STRING_BUF(get_val_(STRING, param)), 0, 0, true);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("..."), printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From 3d6b15f66b5c337017df694a271d0a19cb804782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 46/55] fix: && and || in the arguments of nested calls are
 accepted by the shell backend

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index 7840722..67315ef 100644
--- a/sh.c
+++ b/sh.c
@@ -1015,6 +1015,8 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
       fatal_error("unexpected operator");
       return 0;
     }
+  } else if (nb_children == 4 && (op == AMP_AMP || op == BAR_BAR)) {
+    return node; // Already handled, as part of the arguments of a function call
   } else if (nb_children == 3 && op == '?') {
     previous_conditional_fun_calls = conditional_fun_calls;
     conditional_fun_calls = 0;
-- 
2.43.0


From d639c936cbf5081388184194c04bbf6eba9132d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:31 +0000
Subject: [PATCH 47/55] fix: the first bucket of the identifier table was taken
 for the operator of the null node

---
 pnut.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 5f63c32..9d18b98 100644
--- a/pnut.c
+++ b/pnut.c
@@ -330,7 +330,7 @@ int hash;
 #define HASH_PRIME 1009
 #define HEAP_SIZE 2000000
 intptr_t heap[HEAP_SIZE];
-int heap_alloc = HASH_PRIME;
+int heap_alloc = HASH_PRIME + 1; // heap[0] stays 0 so that the null node has no operator
 
 int alloc_result;
 
@@ -644,6 +644,7 @@ int end_ident() {
   string_pool[string_pool_alloc] = 0; // terminate string
   string_pool_alloc += 1; // account for terminator
 
+  hash += 1; // The table starts at heap[1]
   probe = heap[hash];
 
   while (probe != 0) {
@@ -1649,7 +1650,7 @@ void init_ident_table() {
 
   int i = 0;
 
-  while (i < HASH_PRIME) {
+  while (i <= HASH_PRIME) {
     heap[i] = 0;
     i += 1;
   }
-- 
2.43.0


From 536f5d65fab148ea94246ca4b36b35056ebfe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 48/55] fix: difference of pointers whose element size is not a
 power of 2 may be negative

---
 exe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index eb9eaf9..2767d17 100644
--- a/exe.c
+++ b/exe.c
@@ -272,7 +272,7 @@ void div_for_pointer_arith(int reg, int width) {
       pop_reg(reg_Y); // Otherwise, we still need to restore reg_Y
     }
   } else {
-    // div_reg_reg only works with reg_X on certain architectures, so we need to save it
+    // idiv_reg_reg only works with reg_X on certain architectures, so we need to save it
     if (reg_start != reg_X) {
       push_reg(reg_X);
       reg = reg_X;
@@ -281,7 +281,7 @@ void div_for_pointer_arith(int reg, int width) {
     }
 
     mov_reg_imm(reg_Y, width);
-    div_reg_reg(reg_X, reg_Y);
+    idiv_reg_reg(reg_X, reg_Y); // The difference may be negative
 
     if (reg_start != reg_X) {
       mov_reg_reg(reg_start, reg_X);
-- 
2.43.0


From 39d7574d8494f2b924b6de0722adf0df02954d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 49/55] fix: addresses are compared as unsigned numbers

---
 exe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 2767d17..7929482 100644
--- a/exe.c
+++ b/exe.c
@@ -1021,7 +1021,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   int width;
   // If any of the operands is unsigned, the result is unsigned
   bool is_signed = false;
-  if (is_signed_numeric_type(promote_type(left_type))
+  if (is_pointer_type(left_type) || is_pointer_type(right_type)) is_signed = false; // Addresses are unsigned
+  else if (is_signed_numeric_type(promote_type(left_type))
    && (op == RSHIFT || op == RSHIFT_EQ || is_signed_numeric_type(promote_type(right_type)))) is_signed = true;
 
   pop_reg(reg_Y); // rhs operand
-- 
2.43.0


From 1c986601465096babb4e95faecce926fad19d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 50/55] fix: compound assignments and function results are
 converted to their type

---
 exe.c | 55 +++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/exe.c b/exe.c
index 7929482..6f2e0f5 100644
--- a/exe.c
+++ b/exe.c
@@ -672,6 +672,21 @@ ast ref_type_width(ast type) {
   return type_width(dereference_type(type), true, false);
 }
 
+// Usual arithmetic conversions: type of the result of an operation on 2 numbers.
+// The type is the widest of the promoted types, and unsigned if any of them is unsigned.
+ast arithmetic_type(ast left_type, ast right_type) {
+  int left_width, right_width;
+
+  left_type = promote_type(left_type);
+  right_type = promote_type(right_type);
+  left_width = type_width(left_type, false, false);
+  right_width = type_width(right_type, false, false);
+
+  if (left_width != right_width) return left_width > right_width ? left_type : right_type;
+  if (is_signed_numeric_type(left_type)) return right_type;
+  return left_type;
+}
+
 // Structs, enums and unions types come in 2 variants:
 //  - definition: the type contains the members of the struct/enum/union
 //  - reference: the type reference an already declared struct/enum/union and doesn't contain the members.
@@ -1145,6 +1160,21 @@ void codegen_rvalue(ast node);
 void codegen_statement(ast node);
 int codegen_lvalue(ast node);
 
+// Convert the value at the top of the stack to another type.
+// If the type is narrower than the value, or if the signedness changes, the
+// value needs to be truncated. This is done by reading it back from the stack,
+// sign extending it if necessary.
+void codegen_conversion(ast to_type, ast from_type) {
+  int width = type_width(to_type, false, false);
+
+  if (width < type_width(from_type, false, false)
+   || (width < WORD_SIZE && is_signed_numeric_type(to_type) != is_signed_numeric_type(from_type))) {
+    load_mem_location(reg_X, reg_SP, 0, width, is_signed_numeric_type(to_type));
+    grow_stack(-1);
+    push_reg(reg_X);
+  }
+}
+
 int codegen_param(ast param) {
   int type = value_type(param);
   int left_width;
@@ -1540,6 +1570,8 @@ void codegen_rvalue(ast node) {
       mov_reg_imm(reg_X, 1); // equivalent to calling codegen rvalue with INTEGER 1 (subtraction or addition handled in codegen_binop)
       push_reg(reg_X);
       codegen_binop(op, child0, new_ast0(INTEGER, 0)); // Pops two values off the stack and pushes the result
+      type1 = value_type(child0);
+      if (left_width < WORD_SIZE) codegen_conversion(type1, arithmetic_type(type1, int_type));
       pop_reg(reg_X); // result
       pop_reg(reg_Y); // address
       grow_fs(-1);
@@ -1593,6 +1625,8 @@ void codegen_rvalue(ast node) {
       grow_fs(1);
       codegen_rvalue(child1);
       codegen_binop(op, child0, child1);
+      type1 = value_type(child0);
+      if (left_width < WORD_SIZE) codegen_conversion(type1, arithmetic_type(type1, value_type(child1)));
       pop_reg(reg_X);
       pop_reg(reg_Y);
       grow_fs(-3);
@@ -1655,18 +1689,7 @@ void codegen_rvalue(ast node) {
       }
     } else if (op == CAST) {
       codegen_rvalue(child1);
-      // If the cast is to a value narrower than the width of the value, we need
-      // to truncate the value. This is done by writing the value to the stack
-      // and then reading it back, sign extending it if necessary. The same is
-      // done when the signedness changes.
-      child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      type1 = value_type(child1);
-      if (type_width(child0, false, false) < type_width(type1, false, false)
-       || (type_width(child0, false, false) < WORD_SIZE && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
-        load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
-        grow_stack(-1);
-        push_reg(reg_X);
-      }
+      codegen_conversion(get_child_(DECL, child0, 1), value_type(child1)); // child 1 of cast is the type
       grow_fs(-1); // grow_fs(1) is called by codegen_rvalue and at the end of the function
     } else {
       fatal_error("codegen_rvalue: unknown rvalue with 2 children");
@@ -2122,6 +2145,9 @@ void codegen_body(ast node) {
   cgc_locals = save_locals;
 }
 
+// Return type of the function being compiled
+ast cgc_fun_return_type;
+
 void codegen_statement(ast node) {
   int op;
   int lbl1, lbl2, lbl3;
@@ -2364,6 +2390,9 @@ void codegen_statement(ast node) {
 
     if (get_child_(RETURN_KW, node, 0) != 0) {
       codegen_rvalue(get_child_(RETURN_KW, node, 0));
+      if (type_width(cgc_fun_return_type, false, false) < WORD_SIZE && get_op(cgc_fun_return_type) != VOID_KW) {
+        codegen_conversion(cgc_fun_return_type, value_type(get_child_(RETURN_KW, node, 0)));
+      }
       pop_reg(reg_X);
       grow_fs(-1);
     }
@@ -2434,6 +2463,8 @@ void codegen_glo_fun_decl(ast node) {
     fatal_error("Returning arrays or structs from function not supported");
   }
 
+  cgc_fun_return_type = fun_return_type;
+
   // If the function is main
   if (name_probe == MAIN_ID) {
     // Check if main returns an exit code.
-- 
2.43.0


From aede1405bdb71625f55302d93472cbc9dbc217da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 51/55] fix: unsigned int arithmetic wraps at 32 bits on 64-bit
 targets

---
 exe.c | 92 ++++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/exe.c b/exe.c
index 6f2e0f5..47e713b 100644
--- a/exe.c
+++ b/exe.c
@@ -617,10 +617,10 @@ bool is_signed_numeric_type(ast type) {
   }
 }
 
-// Integer promotion: operands narrower than int are converted to int
+// Integer promotion: operands narrower than int and enums are converted to int
 ast promote_type(ast type) {
   int op = get_op(type);
-  return op == CHAR_KW || op == SHORT_KW ? int_type : type;
+  return op == CHAR_KW || op == SHORT_KW || op == ENUM_KW ? int_type : type;
 }
 
 // Size an object of the given type would occupy in memory (in bytes).
@@ -687,6 +687,12 @@ ast arithmetic_type(ast left_type, ast right_type) {
   return left_type;
 }
 
+// Unsigned values narrower than registers must be truncated after operations that can overflow
+bool is_narrow_unsigned_type(ast type) {
+  if (is_signed_numeric_type(type)) return false;
+  return type_width(type, false, false) < WORD_SIZE;
+}
+
 // Structs, enums and unions types come in 2 variants:
 //  - definition: the type contains the members of the struct/enum/union
 //  - reference: the type reference an already declared struct/enum/union and doesn't contain the members.
@@ -937,12 +943,10 @@ ast value_type(ast node) {
         return left_type;
       } else if (is_pointer_type(right_type)) {
         return right_type;
-      } else if (op == LSHIFT || op == RSHIFT || !is_signed_numeric_type(promote_type(left_type))) {
-        // The type of a shift is the type of its left operand.
-        // For other operators, the type is unsigned if any of the operands is unsigned
-        return promote_type(left_type);
+      } else if (op == LSHIFT || op == RSHIFT) {
+        return promote_type(left_type); // The type of a shift is the type of its left operand.
       } else {
-        return promote_type(right_type);
+        return arithmetic_type(left_type, right_type);
       }
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
@@ -1003,9 +1007,7 @@ ast value_type(ast node) {
       left_type = value_type(child1);
       right_type = value_type(get_child(node, 2));
       if (is_numeric_type(left_type) && is_numeric_type(right_type)) {
-        // The type is unsigned if any of the 2 cases is unsigned
-        if (is_signed_numeric_type(promote_type(left_type))) left_type = right_type;
-        return promote_type(left_type);
+        return arithmetic_type(left_type, right_type);
       } else if (is_numeric_type(left_type) && is_pointer_type(right_type)) {
         return right_type; // Null pointer and pointer
       } else {
@@ -1024,6 +1026,25 @@ ast value_type(ast node) {
   }
 }
 
+// Truncate the value at the top of the stack to the width of the given type.
+// This is done by reading it back from the stack, sign extending it if necessary.
+void codegen_truncate(ast type) {
+  load_mem_location(reg_X, reg_SP, 0, type_width(type, false, false), is_signed_numeric_type(type));
+  grow_stack(-1);
+  push_reg(reg_X);
+}
+
+// Convert the value at the top of the stack to another type.
+// The value needs to be truncated if the type is narrower or if the signedness changes.
+void codegen_conversion(ast to_type, ast from_type) {
+  int width = type_width(to_type, false, false);
+
+  if (width < type_width(from_type, false, false)
+   || (width < WORD_SIZE && is_signed_numeric_type(to_type) != is_signed_numeric_type(from_type))) {
+    codegen_truncate(to_type);
+  }
+}
+
 void codegen_binop(int op, ast lhs, ast rhs) {
 
   int lbl1;
@@ -1034,14 +1055,26 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
   int width;
-  // If any of the operands is unsigned, the result is unsigned
-  bool is_signed = false;
-  if (is_pointer_type(left_type) || is_pointer_type(right_type)) is_signed = false; // Addresses are unsigned
-  else if (is_signed_numeric_type(promote_type(left_type))
-   && (op == RSHIFT || op == RSHIFT_EQ || is_signed_numeric_type(promote_type(right_type)))) is_signed = true;
-
-  pop_reg(reg_Y); // rhs operand
-  pop_reg(reg_X); // lhs operand
+  ast type = 0; // Type of the operation, if it's between numbers
+  bool is_shift = op == LSHIFT || op == LSHIFT_EQ || op == RSHIFT || op == RSHIFT_EQ;
+  bool is_signed = false; // Addresses are unsigned
+
+  if (left_is_numeric && right_is_numeric && op != ',') {
+    if (is_shift) type = promote_type(left_type);
+    else type = arithmetic_type(left_type, right_type);
+    is_signed = is_signed_numeric_type(type);
+  }
+
+  if (type != 0 && !is_shift && is_narrow_unsigned_type(type)) {
+    // The operands are converted to the type of the operation
+    width = type_width(type, false, false);
+    load_mem_location(reg_Y, reg_SP, 0, width, false);         // rhs operand
+    load_mem_location(reg_X, reg_SP, WORD_SIZE, width, false); // lhs operand
+    grow_stack(-2);
+  } else {
+    pop_reg(reg_Y); // rhs operand
+    pop_reg(reg_X); // lhs operand
+  }
 
   if      (op == '<')     cond = is_signed ? LT : LT_U;
   else if (op == '>')     cond = is_signed ? GT : GT_U;
@@ -1154,27 +1187,13 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   }
 
   push_reg(reg_X);
+  if (type != 0 && cond == -1 && is_narrow_unsigned_type(type)) codegen_truncate(type);
 }
 
 void codegen_rvalue(ast node);
 void codegen_statement(ast node);
 int codegen_lvalue(ast node);
 
-// Convert the value at the top of the stack to another type.
-// If the type is narrower than the value, or if the signedness changes, the
-// value needs to be truncated. This is done by reading it back from the stack,
-// sign extending it if necessary.
-void codegen_conversion(ast to_type, ast from_type) {
-  int width = type_width(to_type, false, false);
-
-  if (width < type_width(from_type, false, false)
-   || (width < WORD_SIZE && is_signed_numeric_type(to_type) != is_signed_numeric_type(from_type))) {
-    load_mem_location(reg_X, reg_SP, 0, width, is_signed_numeric_type(to_type));
-    grow_stack(-1);
-    push_reg(reg_X);
-  }
-}
-
 int codegen_param(ast param) {
   int type = value_type(param);
   int left_width;
@@ -1533,6 +1552,7 @@ void codegen_rvalue(ast node) {
       xor_reg_reg(reg_X, reg_X);
       sub_reg_reg(reg_X, reg_Y);
       push_reg(reg_X);
+      if (is_narrow_unsigned_type(value_type(node))) codegen_truncate(value_type(node));
     } else if (op == '~') {
       codegen_rvalue(child0);
       pop_reg(reg_Y);
@@ -1540,6 +1560,7 @@ void codegen_rvalue(ast node) {
       mov_reg_imm(reg_X, -1);
       xor_reg_reg(reg_X, reg_Y);
       push_reg(reg_X);
+      if (is_narrow_unsigned_type(value_type(node))) codegen_truncate(value_type(node));
     } else if (op == '!') {
       xor_reg_reg(reg_X, reg_X);
       push_reg(reg_X);
@@ -1610,6 +1631,8 @@ void codegen_rvalue(ast node) {
         copy_obj(reg_Y, 0, reg_X, 0, left_width);
       } else {
         codegen_rvalue(child1);
+        // Char and short are not converted, so c = getchar() can be compared to EOF
+        if (left_width == 4 && WORD_SIZE == 8) codegen_conversion(type1, value_type(child1));
         pop_reg(reg_X);
         pop_reg(reg_Y);
         grow_fs(-2);
@@ -1705,11 +1728,14 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       xor_reg_reg(reg_Y, reg_Y);
       jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
+      type1 = value_type(node);
       codegen_rvalue(child1); // value when true
+      if (is_numeric_type(type1)) codegen_conversion(type1, value_type(child1));
       jump(lbl2);
       def_label(lbl1);
       grow_fs(-1); // here, the child#1 is not on the stack, so we adjust it
       codegen_rvalue(get_child(node, 2)); // value when false
+      if (is_numeric_type(type1)) codegen_conversion(type1, value_type(get_child(node, 2)));
       grow_fs(-1); // grow_fs(1) is called by codegen_rvalue and at the end of the function
       def_label(lbl2);
     } else {
-- 
2.43.0


From cf939bcf95b6c02bad007fa28e7d70de6a6df854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 52/55] fix: negative enumeration constants on 64-bit targets

---
 exe.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/exe.c b/exe.c
index 47e713b..d730220 100644
--- a/exe.c
+++ b/exe.c
@@ -1501,11 +1501,7 @@ void codegen_rvalue(ast node) {
           push_reg(reg_X);
           break;
         case BINDING_ENUM_CST:
-#ifdef SUPPORT_64_BIT_LITERALS
-          mov_reg_large_imm(reg_X, get_val(heap[binding+3]));
-#else
-          mov_reg_imm(reg_X, -get_val_(INTEGER, heap[binding+3]));
-#endif
+          mov_reg_imm(reg_X, -get_val_(INTEGER, heap[binding+3])); // Large integers are not supported in enums
           push_reg(reg_X);
           break;
 
-- 
2.43.0


From 71559264496a9961533401ff95db3d72e9febd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 53/55] fix: sizeof of character constants, string literals and
 decayed arrays

---
 exe.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/exe.c b/exe.c
index d730220..69b2f88 100644
--- a/exe.c
+++ b/exe.c
@@ -850,6 +850,12 @@ int resolve_identifier(int ident_probe) {
   return 0;
 }
 
+// Arrays decay to a pointer to their first element when they are used as a value.
+ast decay_type(ast type) {
+  if (get_op(type) == '[') return pointer_type(get_child_('[', type, 0), false);
+  return type;
+}
+
 // Compute the type of an expression
 ast value_type(ast node) {
   int op = get_op(node);
@@ -874,7 +880,7 @@ ast value_type(ast node) {
     }
 #endif
     else if (op == CHARACTER) {
-      return char_type;
+      return int_type; // Character constants are integers
     } else if (op == STRING) {
       return string_type;
     } else if (op == IDENTIFIER) {
@@ -940,9 +946,9 @@ ast value_type(ast node) {
         return int_type; // Pointer - Pointer = Integer
       } else if (is_pointer_type(left_type)) {
         // if left is an array or a pointer, the type is also a pointer
-        return left_type;
+        return decay_type(left_type);
       } else if (is_pointer_type(right_type)) {
-        return right_type;
+        return decay_type(right_type);
       } else if (op == LSHIFT || op == RSHIFT) {
         return promote_type(left_type); // The type of a shift is the type of its left operand.
       } else {
@@ -951,7 +957,7 @@ ast value_type(ast node) {
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
     } else if (op == ',') {
-      return value_type(child1); // The type of the right operand
+      return decay_type(value_type(child1)); // The type of the right operand
     } else if (op == '[') {
       left_type = value_type(child0);
       right_type = value_type(child1);
@@ -1004,8 +1010,8 @@ ast value_type(ast node) {
   } else if (nb_children == 3) {
 
     if (op == '?') {
-      left_type = value_type(child1);
-      right_type = value_type(get_child(node, 2));
+      left_type = decay_type(value_type(child1));
+      right_type = decay_type(value_type(get_child(node, 2)));
       if (is_numeric_type(left_type) && is_numeric_type(right_type)) {
         return arithmetic_type(left_type, right_type);
       } else if (is_numeric_type(left_type) && is_pointer_type(right_type)) {
@@ -1598,7 +1604,10 @@ void codegen_rvalue(ast node) {
       codegen_lvalue(child0);
       grow_fs(-1);
     } else if (op == SIZEOF_KW) {
-      if (get_op(child0) == DECL) {
+      while (get_op(child0) == PARENS) child0 = get_child_(PARENS, child0, 0);
+      if (get_op(child0) == STRING) {
+        mov_reg_imm(reg_X, STRING_LEN(get_val_(STRING, child0)) + 1); // Array of char, with its null terminator
+      } else if (get_op(child0) == DECL) {
         mov_reg_imm(reg_X, type_width(get_child_(DECL, child0, 1), true, false));
       } else {
         mov_reg_imm(reg_X, type_width(value_type(child0), true, false));
-- 
2.43.0


From c4d32366e944dc05d899edfbd204665a6e8e603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:37 +0000
Subject: [PATCH 54/55] fix: literals with the LL suffix have type long long on
 64-bit targets

---
 exe.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index 69b2f88..e21bb3e 100644
--- a/exe.c
+++ b/exe.c
@@ -536,6 +536,8 @@ void def_goto_label(int lbl) {
 
 ast int_type;
 ast uint_type;
+ast long_type; // long long, same as int on 32-bit targets
+ast ulong_type;
 ast char_type;
 ast string_type;
 ast void_type;
@@ -869,10 +871,14 @@ ast value_type(ast node) {
 
   if (nb_children == 0) {
 #ifdef PARSE_NUMERIC_LITERAL_SUFFIX
-    if (op == INTEGER || op == INTEGER_L || op == INTEGER_LL) {
+    if (op == INTEGER || op == INTEGER_L) {
       return int_type;
-    } else if (op == INTEGER_U || op == INTEGER_UL || op == INTEGER_ULL) {
+    } else if (op == INTEGER_U || op == INTEGER_UL) {
       return uint_type;
+    } else if (op == INTEGER_LL) {
+      return long_type;
+    } else if (op == INTEGER_ULL) {
+      return ulong_type;
     }
 #else
     if (op == INTEGER) {
@@ -1769,6 +1775,8 @@ void codegen_begin() {
 
   int_type = new_ast0(INT_KW, 0);
   uint_type = new_ast0(INT_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW));
+  long_type = new_ast0(WORD_SIZE == 8 ? LONG_KW : INT_KW, 0);
+  ulong_type = new_ast0(WORD_SIZE == 8 ? LONG_KW : INT_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW));
   char_type = new_ast0(CHAR_KW, 0);
   string_type = pointer_type(new_ast0(CHAR_KW, 0), false);
   void_type = new_ast0(VOID_KW, 0);
-- 
2.43.0


From 5360229f057eccd95a7e1e13f174b327bbce46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 55/55] fix: carry in 64-bit literals

---
 pnut.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pnut.c b/pnut.c
index 9d18b98..359b841 100644
--- a/pnut.c
+++ b/pnut.c
@@ -993,6 +993,9 @@ void u64_mul_u32(int *x, int y) {
   // Note, because we are using 32 bit **signed** integers, we need to clear the
   // sign bit when shifting right to avoid sign extension.
   #define I32_LOGICAL_RSHIFT_16(x) ((x >> 16) & 0xffff)
+  // Signed 32 bit integer from its high and low 16 bits. It doesn't depend on the
+  // result wrapping around since shells may use 64 bit integers.
+  #define I32_FROM_16(hi, lo) (((hi) ^ 0x8000) - 0x8000) * 65536 + (lo)
 
   int xlo = x[0] & 0xffff;
   int xhi = I32_LOGICAL_RSHIFT_16(x[0]);
@@ -1003,16 +1006,16 @@ void u64_mul_u32(int *x, int y) {
   int m2 = xhi * ylo; /* 0 .. 0xfffe0001 */
   int m3 = (m1 & 0xffff) + (m2 & 0xffff); /* 0 .. 0x1fffe */
   int hi = xhi * yhi + I32_LOGICAL_RSHIFT_16(m1) + I32_LOGICAL_RSHIFT_16(m2) + I32_LOGICAL_RSHIFT_16(m3); /* 0 .. 0xfffffffe */
-  x[0] = ((m3 & 0xffff) << 16) + (lo & 0xffff);
+  x[0] = I32_FROM_16(m3 & 0xffff, lo & 0xffff);
   x[1] = x[1] * y + hi;
 }
 
 // x = x + y
 void u64_add_u32(int *x, int y) {
-  int lo = x[0] + y;
-  // Carry (using signed integers)
-  x[1] += ((x[0] < 0) != (lo < 0));
-  x[0] = lo;
+  int lo = (x[0] & 0xffff) + (y & 0xffff);
+  int hi = I32_LOGICAL_RSHIFT_16(x[0]) + I32_LOGICAL_RSHIFT_16(y) + (lo >> 16);
+  x[1] += hi >> 16; // Carry
+  x[0] = I32_FROM_16(hi & 0xffff, lo & 0xffff);
 }
 
 // Pack a 64 bit unsigned integer into an object.
-- 
2.43.0

