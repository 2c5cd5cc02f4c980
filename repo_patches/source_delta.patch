From 6357d1fdd903ba4db4d8000f874e05426ddc58c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:55 +0000
Subject: [PATCH 01/88] fix: hash_pointer_function shifted a 32-bit mask past
 its width

---
 CMakePasm/source/hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/hash.cc b/CMakePasm/source/hash.cc
index 12efd51..0352b82 100644
--- a/CMakePasm/source/hash.cc
+++ b/CMakePasm/source/hash.cc
@@ -30,7 +30,7 @@ unsigned int hash_pointer_function(const void* key)
 
     for (size_t index = 0; index < sizeof(void*); ++index)
     {
-        const unsigned char b = (((unsigned long long)key) & (0xFF << (8 * index))) >> (8 * index);  // NOLINT(clang-diagnostic-implicit-int-conversion)
+        const unsigned char b = (((unsigned long long)key) & (0xFFULL << (8 * index))) >> (8 * index);  // NOLINT(clang-diagnostic-implicit-int-conversion)
 
         hash += b;
         hash += hash << 10;
-- 
2.43.0


From ad7ab28a30bedf2ae3d8c5c7c2ec44858d656b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:55 +0000
Subject: [PATCH 02/88] fix: operator tables stored sizeof(op_table) bytes from
 a pointer-sized value

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..09b96a0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2017,7 +2017,7 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 
 static dictionary_ptr create_op_table_dictionary(op_table table[], const size_t size)
 {
-    dictionary_ptr dictionary = dict_create(sizeof(op_table), -1);
+    dictionary_ptr dictionary = dict_create(sizeof(expr), -1);
     for (size_t i = 0; i < size; ++i)
     {
         dict_insert(&dictionary, (void*)static_cast<size_t>(table[i].tag), &table[i].function);
-- 
2.43.0


From 9535e5936d17054def612fadf46ab907e257c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 03/88] fix: macro dictionary copied pointer-size bytes out of
 a 4-byte entry

---
 CMakePasm/source/expand.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 09b96a0..195f57d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1316,7 +1316,7 @@ macro_dict_entry* create_macro_entry(const char* name)
 {
     // ReSharper disable once CppTooWideScope
     if (macro_dict == nullptr)
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
 
     auto* macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_search(macro_dict, name));
     if (macro_dict_entry == nullptr)
@@ -1342,7 +1342,7 @@ void reset_macro_dict(void)
 
     if (macro_dict == nullptr)
     {
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(struct macro_dict_entry), 0);
     }
     for (int index = 0; index < macro_dict->size; index++)
     {
-- 
2.43.0


From 93f0d8875c7783d8ae6e419b8b0eedf17166794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 04/88] fix: errors reported in the final pass exited with
 status 0

---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..27c5e6f 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors that only show up while generating output
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From df1eedaca03ff4d28616f5312586bba2765ebb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 05/88] fix: generate_list_node printed its buffer after
 freeing it

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..3e2f6d4 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1683,9 +1683,9 @@ int generate_list_node(const parse_node_ptr p)
         // check for overflow
         if (hi != 0 && data_size < 2)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
-- 
2.43.0


From 75fdeed89306e9597c7238077cda97f04f5fe2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 06/88] fix: .fill with a count of zero advanced the program
 counter in every pass but the last

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 195f57d..1246d7d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -405,7 +405,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
-- 
2.43.0


From 6f2c90f7636347f487003d706f3df51f5517c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 07/88] fix: relative branch range was -127..128 instead of
 -128..127

---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1246d7d..f23e66c 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -919,7 +919,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 3e2f6d4..a680ba5 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From 5c5ef94dee1fc9bbb83ea97a7da25427b4753b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 08/88] fix: out of range bvc, bvs and bra were rewritten
 without inverting the condition

---
 CMakePasm/source/expand.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f23e66c..26b6e18 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -950,6 +950,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
@@ -963,14 +971,18 @@ int expand_op_code_node(const parse_node_ptr p)
                             exit(-1);
                         }
 
-                        p->opcode.opcode = code2;
-                        if (final_pass)
+                        // bra has no inverse, the jmp alone replaces it
+                        if (p->opcode.instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
+                            p->opcode.opcode = code2;
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
-- 
2.43.0


From aa6a5e2f273789852957f3054c5d39dfd0ef9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 09/88] fix: a branch rewritten in a macro or loop body stayed
 rewritten for later expansions

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 26b6e18..fd47471 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -802,6 +802,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -992,6 +993,9 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+                        // the node is expanded again in a macro or loop
+                        p->op[index] = target;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From 2a7fe3fba7f8c9d237016f06058c21e9a576c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 10/88] fix: a register loop counting up to 255 skipped its
 last iteration

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index fd47471..a9a1778 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -636,7 +636,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     expand_node(loop_next);
 
     // check to see if we need a compare
-    if (end != 0)
+    // counting up to 255 ends when the register wraps to 0
+    if (end != 0 && (increment_flag < 0 || end < 255))
     {
         parse_node_ptr cmp_node;
         if (increment_flag > 0 && end < 255)
-- 
2.43.0


From ea0785264737062b879496cfa1e2d8aec34361fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 11/88] fix: -d ignored decimal values of more than two digits

---
 CMakePasm/source/parseargs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..6ea5902 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -321,6 +321,10 @@ int parse_arguments(const int argc, char* argv[])
                 {
                     sym_val = (int)strtol(val + 2, NULL, 2);
                 }
+                else
+                {
+                    sym_val = (int)strtol(val, NULL, 10);
+                }
             }
             else
             {
-- 
2.43.0


From ed60f1b65c9fa1af8041d6ec7c8efa32fe4ec070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 12/88] fix: warnings were printed when they are turned off

---
 CMakePasm/source/error.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..142bc8d 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -86,7 +86,8 @@ void error(const int err_num)
 void warn(const int err_num)
 {
     assert(err_num > error_start && err_num < error_max);
-    yymessage(errors[err_num]);
+    if (!ignore_warnings)
+        yymessage(errors[err_num]);
     warning_count++;
 }
 
-- 
2.43.0


From f289216972b037528dfaeb4ec216f2af3389cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 13/88] fix: plus and minus symbols past either end of their
 table were read out of bounds

---
 CMakePasm/source/sym.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..efef83b 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -344,8 +344,9 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     }
     if (found_index >= 0)
     {
+        // entries are sorted by file, the symbol must be in the same one
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -368,8 +369,9 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     }
     if (found_index >= 0)
     {
+        // entries are sorted by file, the symbol must be in the same one
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index < plus_symbol_table_index && stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From c9c5511c6f86f9e05dc45f646e55fbf2d528b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 14/88] fix: the end of a false .ifdef inside another
 conditional kept skipping source

---
 CMakePasm/source/pasm.l | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..ab54f1a 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -207,8 +207,9 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                // nested blocks that are skipped push 1
+                                int last_if = * (int*) ifdef_stack->pop(ifdef_stack->instance);
+                                if (last_if == 0)
                                 {
                                     if (final_pass)
                                     {
-- 
2.43.0


From f55ce6cbeb6b51d639ef5448faaee219c996cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 15/88] fix: .else outside of a conditional read below the
 bottom of the stack

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index ab54f1a..e6b0170 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -238,6 +238,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From 79927628664d930d80ebd7af4d1b8ce2a9d3321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 16/88] fix: .load of a missing file dereferenced a null FILE

---
 CMakePasm/source/expand.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index a9a1778..d65a5ca 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -420,6 +420,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
-- 
2.43.0


From 9fe5df07cc82ccfd5500e0d09e343e1108f48bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 17/88] fix: source after an unterminated comment or false
 conditional was silently dropped

---
 CMakePasm/source/pasm.l | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index e6b0170..a8ab2b0 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -431,7 +431,13 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 [ \t]+                      { /* ignore white space */ }
 <<EOF>>                     {
                                 if (last_token != nullptr) FREE(last_token); last_token = nullptr;
-                                
+
+                                // a comment or conditional that is still open hides the rest of the source
+                                if (YY_START != INITIAL)
+                                {
+                                    yyerror("Parse: unexpected end of file");
+                                    BEGIN(INITIAL);
+                                }
                                 yylineno++;
                                 if (final_pass) generate_list_node(NULL);
                                 
-- 
2.43.0


From 7c5f06acdd4bd64027f988e55ca6286633fe7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 18/88] fix: a plus or minus reference without a matching
 symbol assembled as address 0

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index d65a5ca..9917bf9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -496,6 +496,10 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else if (final_pass)
+    {
+        error(error_plus_sym_overflow);
+    }
     p->id.i = sym;
 
     return sym->value;
-- 
2.43.0


From 1d22a3922e78218e311bf23e3d8f64cd516f9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 19/88] fix: operands that do not fit were silently truncated

---
 CMakePasm/source/expand.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9917bf9..f615b63 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -883,6 +883,9 @@ int expand_op_code_node(const parse_node_ptr p)
             // ReSharper disable once CppRedundantParentheses
             large_op = large_op | ((op_value & ~0xFF) != 0);
 
+            // a value that needs more bits than the operand has
+            if (final_pass && (op_value > 0xFFFF || op_value < (op_bytes < 2 ? -0xFF : -0xFFFF)))
+                error(error_value_out_of_range);
             out_of_range = out_of_range | ((op_value & ~0xFFFF) != 0 || (op_bytes < 2 && large_op));
             if (out_of_range && op_bytes < 2 && (op_value & ~0xFFFF) == 0)
             {
-- 
2.43.0


From 1716dbc013ae2fea06c51f734ba24e3dbaf83d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 20/88] fix: integer literals that need more than 32 bits were
 silently truncated

---
 CMakePasm/source/pasm.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index a8ab2b0..ad3fc06 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -36,7 +36,9 @@ extern bool Debug_AddList;
 #define OP_65C02_REL(op)    { OP_REL(op); }
 #define INT(off, base)      { \
                                 P_TOK("INTEGER") \
-                                yylval.iValue = (int) strtol (yytext + off, NULL, base);\
+                                const long long_value = strtol (yytext + off, NULL, base);\
+                                if (long_value > 0xFFFFFFFFL) yyerror("Value out of range.");\
+                                yylval.iValue = (int) long_value;\
                                 return INTEGER;\
                             }
 #define INT_1BYTE           {\
-- 
2.43.0


From e971e9c3479e13ea69e304394530c97571c2f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 21/88] fix: undefined behaviour in expressions that overflow
 or shift out of range

---
 CMakePasm/source/expand.cc | 40 +++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f615b63..4d11626 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1061,12 +1061,28 @@ int expand_operator_not_node(const parse_node_ptr p)
     return !expand_node(p->op[0]);
 }
 
+//
+// A shift by a negative count or by more than the width is undefined
+// symbols may still change before the final pass
+//
+static bool is_shift_count_valid(const int count)
+{
+    if (count >= 0 && count < 32) return true;
+
+    if (final_pass) error(error_value_out_of_range);
+    return false;
+}
+
 //
 // Operator Shift left
 //
 int expand_operator_shift_left_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) << expand_node(p->op[1]);
+    const int value = expand_node(p->op[0]);
+    const int count = expand_node(p->op[1]);
+
+    if (!is_shift_count_valid(count)) return 0;
+    return static_cast<int>(static_cast<unsigned>(value) << count);
 }
 
 //
@@ -1074,7 +1090,11 @@ int expand_operator_shift_left_node(const parse_node_ptr p)
 //
 int expand_operator_shift_right_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) >> expand_node(p->op[1]);
+    const int value = expand_node(p->op[0]);
+    const int count = expand_node(p->op[1]);
+
+    if (!is_shift_count_valid(count)) return 0;
+    return value >> count;
 }
 
 //
@@ -1780,7 +1800,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_uminus_node(const parse_node_ptr p)
 {
-    return -expand_node(p->op[0]);
+    return static_cast<int>(0U - static_cast<unsigned>(expand_node(p->op[0])));
 }
 
 /// <summary>
@@ -1804,7 +1824,7 @@ int expand_operator_ones_complement_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_plus_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) + expand_node(p->op[1]);
+    return static_cast<int>(static_cast<unsigned>(expand_node(p->op[0])) + static_cast<unsigned>(expand_node(p->op[1])));
 }
 
 /// <summary>
@@ -1814,7 +1834,7 @@ int expand_operator_plus_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_minus_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) - expand_node(p->op[1]);
+    return static_cast<int>(static_cast<unsigned>(expand_node(p->op[0])) - static_cast<unsigned>(expand_node(p->op[1])));
 }
 
 /// <summary>
@@ -1824,7 +1844,7 @@ int expand_operator_minus_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_multiply_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) * expand_node(p->op[1]);
+    return static_cast<int>(static_cast<unsigned>(expand_node(p->op[0])) * static_cast<unsigned>(expand_node(p->op[1])));
 }
 
 /// <summary>
@@ -1839,7 +1859,13 @@ int expand_operator_divide_node(const parse_node_ptr p)
         error(error_divide_by_zero);
         return 0;
     }
-    return expand_node(p->op[0]) / expand_node(p->op[1]);
+    const int divisor = expand_node(p->op[1]);
+    const int value = expand_node(p->op[0]);
+
+    // INT_MIN / -1 traps
+    if (divisor == -1)
+        return static_cast<int>(0U - static_cast<unsigned>(value));
+    return value / divisor;
 }
 
 /// <summary>
-- 
2.43.0


From 2444d62634562f18e19ef865da2f2257583b41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 22/88] fix: negating INT_MIN in the range check of a data
 value

---
 CMakePasm/source/genoutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..829d752 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -155,7 +155,7 @@ int write_data_node(FILE* file, const parse_node_ptr p)
     {
         if (data_size != 1)
         {
-            if (-(op) > 0xFFFE)
+            if (op < -0xFFFE)
             {
                 error(error_value_out_of_range);
                 return 0;
@@ -165,7 +165,7 @@ int write_data_node(FILE* file, const parse_node_ptr p)
         }
         else
         {
-            if (-(op) > 0xFE)
+            if (op < -0xFE)
             {
                 error(error_value_out_of_range);
                 return 0;
-- 
2.43.0


From 74382008a0f171917e43cd9989ea55aa1249b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 23/88] fix: growing a dictionary moved its values and left
 pointers to the old copies

---
 CMakePasm/source/dictionary.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..117e9c3 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,17 +122,33 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        // move the elements so pointers to their values stay valid
+        // each list is reversed first so that the newest of equal keys stays in front
+        element_ptr next;
+        element_ptr reversed = NULL;
+        for (element_ptr element = d->table[index]; element != 0; element = next)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            next = element->next;
+            element->next = reversed;
+            reversed = element;
+        }
+        for (element_ptr element = reversed; element != 0; element = next)
+        {
+            next = element->next;
+            const unsigned long h = (d->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+            element->next = d2->table[h];
+            if (element->next)
+                d2->collisions++;
+
+            d2->table[h] = element;
+            d2->number_elements++;
         }
     }
 
-    free(d->table);
-    free(d);
+    FREE(d->table);
+    FREE(d);
 
     return d2;
 }
-- 
2.43.0


From d056bc10a16353f86019f694ce662f02ef3e9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 24/88] fix: dict_delete leaked the element or its value

---
 CMakePasm/source/dictionary.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index 117e9c3..15c4ba0 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -286,6 +286,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
                 // ReSharper disable once CppPointerConversionDropsQualifiers
                 FREE(p);  // NOLINT(clang-diagnostic-incompatible-pointer-types-discards-qualifiers)
                 FREE(e->value);
+                FREE(e);
                 (d->number_elements)--;
                 return;
             }
@@ -301,6 +302,7 @@ void dict_delete(const dictionary_ptr d, const void* key)
             {
                 const element_ptr e = *prev;
                 *prev = e->next;
+                FREE(e->value);
                 FREE(e);
                 d->number_elements--;
                 return;
-- 
2.43.0


From c8dcf077a7a769b4bb854f81c11c0cd2140a765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 25/88] fix: source that uses the default origin assembled to
 an empty or rejected image

---
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/genoutput.h  | 1 +
 CMakePasm/source/pass.cc      | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 829d752..283727a 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -261,7 +261,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
     // header
diff --git a/CMakePasm/source/genoutput.h b/CMakePasm/source/genoutput.h
index d03c6ef..adab580 100644
--- a/CMakePasm/source/genoutput.h
+++ b/CMakePasm/source/genoutput.h
@@ -7,4 +7,5 @@ extern int get_op_code_byte_count(parse_node_ptr p);
 extern void generate_output_reset(void);
 
 extern int total_bytes_written;
+extern int origin;
 
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 27c5e6f..baa82b0 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -36,6 +36,9 @@ void reset_lex(void)
     // reset the Program Counter
     program_counter = program_origin_default;
 
+    // reset the load address
+    origin = program_origin_default;
+
     // reset End flag
     end_expansion = 0;
 
-- 
2.43.0


From 65052d38860b8535b4301ddfd6499af893acefb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 26/88] fix: with -c64 a gap of one or two bytes was not
 detected

---
 CMakePasm/source/genoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 283727a..fd03aff 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -274,7 +274,8 @@ int generate_output(FILE* file, const parse_node_ptr p)
         }
     }
 
-    const int delta = program_counter - (origin + total_bytes_written);
+    // the header is not part of the image
+    const int delta = program_counter - (origin + total_bytes_written - byte_delta);
     if (delta > 0)
     {
         error(error_value_out_of_range);
-- 
2.43.0


From d1c81b85c310bbe52bbe19225bf1f71bf07a7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 27/88] fix: gaps after a second program counter assignment
 were not detected

---
 CMakePasm/source/expand.cc    | 4 ++--
 CMakePasm/source/genoutput.cc | 8 ++++++++
 CMakePasm/source/genoutput.h  | 1 +
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4d11626..5bbf164 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1129,7 +1129,7 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
     origin_specified = true;
 
     program_counter = op;
-    origin = op;
+    generate_output_set_address(op);
     return 0;
 }
 
@@ -1149,7 +1149,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     }
     const int op = expand_node(p->op[0]);
     program_counter = op;
-    origin = op;
+    generate_output_set_address(op);
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index fd03aff..9353360 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -35,6 +35,14 @@ void generate_output_reset(void)
     origin_specified = 0;
 }
 
+/**
+ * \brief set the address of the next byte that is written
+ */
+void generate_output_set_address(const int address)
+{
+    origin = address - (total_bytes_written - byte_delta);
+}
+
 int write_data(FILE* file, const int data)
 {
     if (data_size == 1)
diff --git a/CMakePasm/source/genoutput.h b/CMakePasm/source/genoutput.h
index adab580..8f7c2e7 100644
--- a/CMakePasm/source/genoutput.h
+++ b/CMakePasm/source/genoutput.h
@@ -5,6 +5,7 @@
 extern int generate_output(FILE* file, parse_node_ptr p);
 extern int get_op_code_byte_count(parse_node_ptr p);
 extern void generate_output_reset(void);
+extern void generate_output_set_address(int address);
 
 extern int total_bytes_written;
 extern int origin;
-- 
2.43.0


From 79fb7ea8cf2936a3be9bc2ca79b5b1daa0e62de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 28/88] fix: 65C02 zero page indirect operands were assembled
 with a 16 bit operand

---
 CMakePasm/source/expand.cc | 6 ++++++
 CMakePasm/source/node.cc   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5bbf164..ae0a839 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1023,6 +1023,12 @@ int expand_op_code_node(const parse_node_ptr p)
                 p->opcode.mode = mode_check;
                 p->opcode.opcode = code2;
             }
+            else if (mode_check == zpi && p->opcode.instruction != _jmp)
+            {
+                // only jmp has an absolute operand, the other opcodes
+                // in the indirect column are zero page indirect
+                p->opcode.mode = mode_check;
+            }
         }
     }
     
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index a680ba5..bd679a0 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -421,6 +421,12 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
             p->opcode.mode = new_mode;
             code = temp_code;
         }
+        else if (new_mode == zpi && op != _jmp)
+        {
+            // only jmp has an absolute operand, the other opcodes
+            // in the indirect column are zero page indirect
+            p->opcode.mode = new_mode;
+        }
     }
 
     for (index = 0; index < number_of_ops; index++)
-- 
2.43.0


From ecb53f01e21ecd9797dfb3159ef6f2f0e58e0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 29/88] fix: eolconvert doubled a CRLF that follows a bare CR
 line

---
 CMakePasm/eolconvert/eolconvert.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..9718ca4 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -255,8 +255,9 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
                         count = 0;
                     continue;
                 }
+                // may be the first half of a CRLF
                 ss << '\n';
-                count = 0;
+                count = 1;
             }
         }
 
-- 
2.43.0


From b51f6f303eefabf709af3208c8aa8a64f998d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 30/88] fix: eolconvert used a dangling path and crashed
 without a samples directory

---
 CMakePasm/eolconvert/eolconvert.cc | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 9718ca4..49edace 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -23,7 +23,7 @@ int process_directories(const set<fs::path>& directories, const fs::path& source
 int process_directory(const fs::path& directory, const fs::path& source_root, const fs::path& install_path);
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path);
 int process_file(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
-char* extract_directory(int n, string path);
+string extract_directory(int n, const string& path);
 
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
@@ -44,7 +44,10 @@ int main(const int argc, char** argv)
     cout << '\n';
     
     fs::path install_root_path;
-    fs::path source_path = realpath("../../CMakePasm/samples", NULL);
+    const char* samples_path = "../../CMakePasm/samples";
+    char* real_source_path = realpath(samples_path, NULL);
+    fs::path source_path = real_source_path != nullptr ? real_source_path : samples_path;
+    free(real_source_path);
     fs::path source_root_path = extract_directory(1, source_path.string());
 
     if (!is_directory(source_path))
@@ -84,9 +87,8 @@ int main(const int argc, char** argv)
     return 0;
 }
 
-char* extract_directory(int n, string path)
+string extract_directory(int n, const string& path)
 {
-    char buffer[1024] = { 0 };
     int count = 0;
     int len = path.length();
     int index = len - 1;
@@ -98,21 +100,13 @@ char* extract_directory(int n, string path)
             ++count;
             if (count == n)
             {
-                index++;
-                auto i = 0;
-                while (index < len)
-                {
-                    buffer[i++] = path[index];
-                    index++;
-                }
-                buffer[i] = ch;
-                return (char*)string(buffer).c_str();
+                return path.substr(index + 1) + ch;
             }
         }
         index--;
     }
-    return NULL;
-} 
+    return "";
+}
 
 //--------------------------------------------------------------------------//
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path)
-- 
2.43.0


From 81a13c2e7fa4e297ff9e99954fcf839a7bbbf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 31/88] fix: source lines and macro names of more than 2000
 characters overran a buffer

---
 CMakePasm/source/error.cc   |  9 +--------
 CMakePasm/source/expand.cc  | 22 ++++++++++++++++++----
 CMakePasm/source/genlist.cc | 14 ++++----------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 142bc8d..d41a736 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -100,14 +100,7 @@ void error2(const int err_num, const char* parameter)
 {
     assert(err_num > error_start && err_num < error_max);
     assert(internal_buffer != NULL);
-    if (strlen(errors[err_num]) + strlen(parameter) + 2 < max_line_len)
-    {
-        sprintf(internal_buffer, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
-    }
-    else
-    {
-        error(err_num);
-    }
+    snprintf(internal_buffer, max_line_len, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
     yyerror(internal_buffer);
 }
 
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ae0a839..029912b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1405,6 +1405,22 @@ void reset_macro_dict(void)
     }
 }
 
+/// <summary>
+/// Scope of the local labels in one expansion of a macro
+/// </summary>
+static char* macro_label(const char* format, const char* name, const int times_executed)
+{
+    const int len = snprintf(nullptr, 0, format, name, times_executed) + 1;
+    auto label = static_cast<char*>(MALLOC(len));
+    if (label == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    snprintf(label, len, format, name, times_executed);
+    return label;
+}
+
 /// <summary>
 /// Operator Macro Symbol
 /// </summary>
@@ -1415,8 +1431,7 @@ int expand_macro_id_node(const parse_node_ptr p)
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    last_label = macro_label("%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
 
     expand_id_node(p);
 
@@ -1450,8 +1465,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    last_label = macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..74f6205 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -88,7 +88,6 @@ void generate_list_file(FILE* list_file)
     fprintf(list_file, "; Processing %s\n", current_file_name);
     for (int line = 1; line < list_head->line; ++line)
     {
-        internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
         if (list_node->list_directive)
@@ -98,8 +97,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -142,12 +140,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,16 +152,13 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-            internal_buffer[0] = 0;
-            sprintf(internal_buffer, source_indent_format, "","");
-            fputs(internal_buffer, list_file);
+            fprintf(list_file, source_indent_format, "","");
             if (source_list->displayed == 0)
             {
                 if (state)
-- 
2.43.0


From 2e30586d476f751e7714681dc987e3d67135b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 32/88] fix: included files were never closed

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index ad3fc06..664c441 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -443,6 +443,8 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 yylineno++;
                                 if (final_pass) generate_list_node(NULL);
                                 
+                                // parse_pass closes the files it opened
+                                if (file_stack->instance->index >= 0) fclose(yyin);
                                 yypop_buffer_state();
                                 if (file_stack->instance->index >= 0)
                                 {
-- 
2.43.0


From 6462e2ea490e173a4c5b6821ee0f4be8152d9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 33/88] fix: macros with local labels did not assemble when
 defined after a label

---
 CMakePasm/source/expand.cc | 8 ++++++++
 CMakePasm/source/node.cc   | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 029912b..8d91d06 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -516,6 +516,10 @@ int expand_id_node(const parse_node_ptr p)
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
+        // the scope is only known when the macro is expanded
+        if (in_macro_definition > 0)
+            return 0;
+
         sym = add_symbol(p->id.name);
         p->id.i = sym;
     }
@@ -2061,6 +2065,10 @@ int is_uninitialized_symbol(const parse_node_ptr p)
 {
     if (p->type == type_label || p->type == type_id)
     {
+        // a local label belongs to the expansion of the macro that uses it
+        if (p->id.name[0] == '@')
+            expand_node(p);
+
         if (p->id.i == nullptr)
             return true;
         const symbol_table_ptr sym = p->id.i;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index bd679a0..ec5ffa9 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -195,7 +195,8 @@ parse_node_ptr label_node(char* name)
 {
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
-    else if (last_label != nullptr && name[0] == '@')
+    // the scope of a local label in a macro is only known when the macro is expanded
+    else if (last_label != nullptr && name[0] == '@' && in_macro_definition == 0)
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
     }
-- 
2.43.0


From c4bbd7e84af02a8531f7a5b48b8b8709411b86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 34/88] fix: a forward reference whose provisional value does
 not fit failed to assemble

---
 CMakePasm/source/expand.cc | 20 ++++++++++++++++++--
 CMakePasm/source/sym.cc    |  3 ++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8d91d06..b1c1612 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1249,7 +1249,10 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             symbol_ptr = add_symbol(sym_name);
             if (symbol_ptr != nullptr)
             {
-                set_symbol_value(symbol_ptr, expand_node(pp));
+                const int value = expand_node(pp);
+                if (final_pass && (value & ~0xFFFF) != 0)
+                    error(error_value_out_of_range);
+                set_symbol_value(symbol_ptr, value);
                 symbol_ptr->is_initialized = true;
             }
             else
@@ -1809,11 +1812,24 @@ int expand_operator_equ_node(const parse_node_ptr p)
             sym = add_symbol(temp);
             FREE(temp);
         }
-        set_symbol_value(sym, op);
+        if (!final_pass && !sym->is_var && (op & ~0xFFFF) != 0)
+        {
+            // symbols that the value depends on may still change
+            sym->value = op;
+            sym_value_changed++;
+        }
+        else
+        {
+            set_symbol_value(sym, op);
+        }
         sym->is_initialized = true;
         if (p->op[0]->type == type_label)
             sym->is_label = true;
     }
+    else if (final_pass && !sym->is_var && (op & ~0xFFFF) != 0)
+    {
+        error(error_value_out_of_range);
+    }
     return op;
 }
 
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index efef83b..ae40602 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -278,7 +278,8 @@ symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
 {
     if ((sym != NULL) && (sym->value != value))
     {
-        if (((value & ~0xFFFF) != 0) && !sym->is_var)
+        // the value of a macro parameter is checked when it is passed
+        if (((value & ~0xFFFF) != 0) && !sym->is_var && !sym->is_macro_param)
         {
             error(error_value_out_of_range);
             return NULL;
-- 
2.43.0


From 631fef708a08f74a2ec2ff584d68499ebf39c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 35/88] fix: -d with a value that does not fit was reported but
 assembled as 0

---
 CMakePasm/source/parseargs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 6ea5902..e52fe80 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -335,7 +335,11 @@ int parse_arguments(const int argc, char* argv[])
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
             {
-                set_symbol_value(sym, sym_val);
+                if (set_symbol_value(sym, sym_val) == NULL)
+                {
+                    usage();
+                    exit(-1);
+                }
                 sym->is_initialized = true;
                 sym->times_accessed = 1000;
             }
-- 
2.43.0


From 2a28e85834decd2622d67108cdee95c3470c4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 36/88] fix: listing of a padded string repeated its last row
 and of control characters broke the line

---
 CMakePasm/source/node.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index ec5ffa9..3186d25 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1606,7 +1606,7 @@ int generate_list_node(const parse_node_ptr p)
                         sprintf(current_ptr, ", ");
                         current_ptr += strlen(current_ptr);
                     }
-                    if (isprint(string_start[len]))
+                    if (isprint(string_start[len] & 0xFF))
                     {
                         sprintf(current_ptr, "'%c'", string_start[len]);
                     }
@@ -1629,6 +1629,15 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            // the rows before are complete, the pad byte needs its own
+            if (col == 0)
+            {
+                string_start = str;
+                current_ptr = current_buffer;
+                op = (program_counter + bytes) & 0xFFFF;
+                sprintf(current_ptr, "$%02X%02X:", ((op) >> 8), op & 0xFF);
+                current_ptr += strlen(current_ptr);
+            }
             col++;
             sprintf(current_ptr, " $%02X", *str & 0xFF);
             current_ptr += strlen(current_ptr);
@@ -1652,9 +1661,9 @@ int generate_list_node(const parse_node_ptr p)
                     sprintf(current_ptr, ", ");
                     current_ptr += strlen(current_ptr);
                 }
-                if (len == col - 1 && pad)
+                if ((len == col - 1 && pad) || !isprint(string_start[len] & 0xFF))
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
                 }
                 else
                 {
-- 
2.43.0


From a7a6711289a1f23610a1f914e18d22d30f86147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:46 +0000
Subject: [PATCH 37/88] fix: a branch with an operand that is not an address
 was assembled (or crashed)

---
 CMakePasm/source/node.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 3186d25..1460c06 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -336,7 +336,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if (mode == a && get_op_code(op, r) != -1)
     {
         mode = r;
     }
@@ -422,7 +422,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
             p->opcode.mode = new_mode;
             code = temp_code;
         }
-        else if (new_mode == zpi && op != _jmp)
+        else if (new_mode == zpi && op != _jmp && get_op_code(op, r) == -1)
         {
             // only jmp has an absolute operand, the other opcodes
             // in the indirect column are zero page indirect
-- 
2.43.0


From 3809a07ca625fa1db11f7368c3c8375e08afa35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 38/88] fix: 65C02 zero page indirect with an address above $FF
 was assembled with a 16 bit operand

---
 CMakePasm/source/expand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b1c1612..ecc9008 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -890,6 +890,11 @@ int expand_op_code_node(const parse_node_ptr p)
             // a value that needs more bits than the operand has
             if (final_pass && (op_value > 0xFFFF || op_value < (op_bytes < 2 ? -0xFF : -0xFFFF)))
                 error(error_value_out_of_range);
+
+            // only jmp has a 16 bit indirect operand
+            else if (final_pass && large_op && p->opcode.instruction != _jmp
+                && (p->opcode.mode == ind || p->opcode.mode == zpi))
+                error(error_value_out_of_range);
             out_of_range = out_of_range | ((op_value & ~0xFFFF) != 0 || (op_bytes < 2 && large_op));
             if (out_of_range && op_bytes < 2 && (op_value & ~0xFFFF) == 0)
             {
-- 
2.43.0


From 15c0ff92514fd4baf458c994697b1a147bae89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 39/88] fix: a forward reference skipped by || or &&, or used
 as a divisor, did not assemble

---
 CMakePasm/source/expand.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ecc9008..228527a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1901,7 +1901,9 @@ int expand_operator_divide_node(const parse_node_ptr p)
 {
     if (expand_node(p->op[1]) == 0)
     {
-        error(error_divide_by_zero);
+        // a forward reference has no value yet
+        if (final_pass || !(has_uninitialized_symbol(p->op[1]) || is_uninitialized_symbol(p->op[1])))
+            error(error_divide_by_zero);
         return 0;
     }
     const int divisor = expand_node(p->op[1]);
@@ -2087,7 +2089,8 @@ int is_uninitialized_symbol(const parse_node_ptr p)
     if (p->type == type_label || p->type == type_id)
     {
         // a local label belongs to the expansion of the macro that uses it
-        if (p->id.name[0] == '@')
+        // and an operand that || or && skipped has not been looked up
+        if (p->id.name[0] == '@' || p->id.i == nullptr)
             expand_node(p);
 
         if (p->id.i == nullptr)
-- 
2.43.0


From e6d1723bbb05f791ddefa06774e51471d387c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 40/88] fix: .var with a symbol as the value cleared both the
 variable and that symbol

---
 CMakePasm/source/expand.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 228527a..1e77fa9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1195,6 +1195,14 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
         switch (expansion_type)  // NOLINT(hicpp-multiway-paths-covered)
         {
         case symbol:
+            // what follows a name in its own list node is its value
+            if (symbol_ptr != nullptr)
+            {
+                set_symbol_value(symbol_ptr, expand_node(pp));
+                symbol_ptr = nullptr;
+                break;
+            }
+
             switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
             {
             case type_id:
@@ -1216,17 +1224,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                 break;
 
             default:
-                if (symbol_ptr != nullptr)
-                {
-                    set_symbol_value(symbol_ptr, expand_node(pp));
-                    symbol_ptr = nullptr;
-                }
-                else
-                {
-                    error(error_initializing_variable);
-                    return 0;
-                }
-                break;
+                error(error_initializing_variable);
+                return 0;
             }
             break;
 
-- 
2.43.0


From f8b7792e9af31b7a1514907b9e795326fa46efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:07 +0000
Subject: [PATCH 41/88] fix: in a section, macros with arguments and references
 to symbols defined later outside it did not assemble

---
 CMakePasm/source/sym.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index ae40602..8e6abe4 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -153,6 +153,10 @@ symbol_table_ptr add_symbol(char* name)
         name++;
     }
     sym.is_macro_param = name[0] == '\\';
+
+    // macro parameters do not belong to a section
+    if (sym.is_macro_param)
+        current_scope = NULL;
     sym.is_local = name[0] == '@';
     if (sym.is_local && last_label != NULL)
     {
@@ -221,6 +225,19 @@ symbol_table_ptr add_symbol(char* name)
     return tmp_ptr;
 }
 
+/// <summary>
+/// A reference in a section to a symbol that is defined outside of the section
+/// further down creates an entry that is never defined
+/// </summary>
+static bool has_outer_definition(const symbol_table_ptr sym)
+{
+    if (sym->is_initialized || sym->scope == NULL)
+        return false;
+
+    const auto outer = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, sym->name));
+    return outer != NULL && outer->is_initialized;
+}
+
 symbol_table_ptr look_up_macro_param(const int param_number)
 {
     char macro_param_name[sizeof(int) + 5] = {0};
@@ -260,6 +277,8 @@ symbol_table_ptr look_up_symbol(const char* name)
         // ReSharper disable once CppLocalVariableMayBeConst
         auto tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, temp_name));
         FREE(temp_name);
+        if (tmp_ptr && has_outer_definition(tmp_ptr))
+            tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, tmp_ptr->name));
         if (tmp_ptr)
         {
             tmp_ptr->times_accessed++;
@@ -752,7 +771,8 @@ void dump_unresolved_symbols(FILE* file)
         for (element_ptr element = symbol_dictionary->table[index]; element != 0; element = element->next)
         {
             const auto sym = static_cast<symbol_table_ptr>(element->value);
-            if (sym->is_var == false  && sym->is_initialized == false && sym->is_plus_minus == false)
+            if (sym->is_var == false  && sym->is_initialized == false && sym->is_plus_minus == false &&
+                !has_outer_definition(sym))
             {
                 current_entry->name = static_cast<char*>(element->key);
                 current_entry->value = sym->value;
@@ -802,7 +822,8 @@ int unresolved_symbol_count(void)
             const auto sym = static_cast<symbol_table_ptr>(elem->value);
 
             if (sym->is_initialized == false && sym->is_macro_name == false &&
-                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
+                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false &&
+                !has_outer_definition(sym))
             {
                 count++;
             }
-- 
2.43.0


From 5d2b3553977f93f76968114823615eef596c9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 42/88] fix: a local label used on the line that defines its
 global label was looked up in the previous scope

---
 CMakePasm/source/node.cc | 16 ++++++++++++++++
 CMakePasm/source/node.h  |  1 +
 CMakePasm/source/pasm.y  |  5 +++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 1460c06..6b98b64 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -186,6 +186,22 @@ parse_node_ptr id_node(const char* name)
     return id_node_common(name, type_id);
 }
 
+/// <summary>
+/// A label starts the scope of the local labels that follow it,
+/// the statement on the same line belongs to it.
+/// </summary>
+/// <param name="name">The name of the label.</param>
+void start_local_scope(char* name)
+{
+    if (name[0] == '@' || name[0] == '-' || name[0] == '+')
+        return;
+
+    const size_t len = strlen(name);
+    if (name[len - 1] == ':')
+        name[len - 1] = 0;
+    last_label = name;
+}
+
 /// <summary>
 /// Identifier specified name.
 /// </summary>
diff --git a/CMakePasm/source/node.h b/CMakePasm/source/node.h
index 63fedbb..e848eac 100644
--- a/CMakePasm/source/node.h
+++ b/CMakePasm/source/node.h
@@ -100,6 +100,7 @@ typedef struct parse_node
 extern parse_node_ptr operator_node(int opr, int number_of_ops, ...);
 extern parse_node_ptr opcode_node(int op, int mode, int number_of_ops, ...);
 extern parse_node_ptr id_node(const char* name);
+extern void start_local_scope(char* name);
 extern parse_node_ptr label_node(char* name);
 extern parse_node_ptr macro_id_node(const char* name);
 extern parse_node_ptr constant_node(int value, int is_program_counter);
diff --git a/CMakePasm/source/pasm.y b/CMakePasm/source/pasm.y
index 2933f41..2d072f8 100644
--- a/CMakePasm/source/pasm.y
+++ b/CMakePasm/source/pasm.y
@@ -68,11 +68,12 @@ bool Debug_Bison = false;
 
 program
     : program stmt                      { E_TOK("program stmt") expand_node($2);                                          }
-    | program LABEL stmt                { 
+    | program LABEL                     { start_local_scope($2);                                              }
+      stmt                              { 
     
                                             E_TOK("program LABEL stmt")
                                             expand_node(operator_node('=', 2, label_node($2), constant_node(program_counter, true))); 
-                                            expand_node($3);                
+                                            expand_node($4);                
                                         }
     | /* NULL */
     ;
-- 
2.43.0


From 76e9336187b3426d47986b3752d637a1b9ebf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 43/88] fix: a + or - label on the first line of a source file
 was a syntax error

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 664c441..37e67cf 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -342,7 +342,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From fef350a5c6f72434b14895d2a2a0bcedd0d2d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 44/88] fix: a symbol that is never defined was assembled as 0
 in .byte and .word

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1e77fa9..76a14ed 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1267,6 +1267,10 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             break;
 
         case data_bytes:
+            // a symbol that is never defined has to be known to be unresolved
+            if (pp->type == type_id)
+                expand_node(pp);
+
             if (!has_uninitialized_symbol(pp))
             {
                 if (final_pass)
-- 
2.43.0


From 33a2ac039fc953464d55872efb65b3e579e21a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:44 +0000
Subject: [PATCH 45/88] fix: long branches to + labels shifted the output but
 not the labels when nothing else asked for another pass

---
 CMakePasm/source/expand.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 76a14ed..4450ae7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1780,8 +1780,12 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "+") == 0)
     {
         int index = find_plus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_plus_symbol(current_file_name, yylineno, op);
-
+        if (index < 0)
+        {
+            // references further up have not seen it yet
+            add_plus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
         index = find_plus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno - 1);
 
         if (index >= 0)
-- 
2.43.0


From 6573a0dd8e2c6aaf39dde019fbb12c56567db39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 46/88] fix: a directive named in a comment or string ended or
 nested the skipped part of .ifdef

---
 CMakePasm/source/pasm.l | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 37e67cf..ab75d35 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -54,6 +54,7 @@ extern bool Debug_AddList;
 %}
 
 %x C_COMMENT
+%x IF_DEF_COMMENT
 %xx IF_DEF
 
 ES                          (\\(['"\?\\abfnrtv]|[0-7]{1,3}|x[a-fA-F0-9]+))
@@ -220,6 +221,12 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>;[^\n]*             { /* a comment or string may hold the name of a directive */ }
+<IF_DEF>[/][/][^\n]*        { /* ignore comments */ }
+<IF_DEF>"/*"                { BEGIN(IF_DEF_COMMENT); }
+<IF_DEF_COMMENT>"*/"        { BEGIN(IF_DEF); }
+<IF_DEF_COMMENT>.|[\n]      { /* ignore comments */ }
+<IF_DEF>{STRVALUE}          { /* ignore strings */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From ca754f5364e84382b07fd56f9757dbac3dd935ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 47/88] fix: a macro that expands itself without end overflowed
 the stack

---
 CMakePasm/source/expand.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4450ae7..3b42e39 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -44,6 +44,7 @@ extern int origin;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
+constexpr int max_macro_depth = 1000;
 
 // number of symbols whose values changed
 int sym_value_changed = 0;
@@ -1470,9 +1471,17 @@ int expand_macro_id_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_macro_expansion_node(const parse_node_ptr p)
 {
+    // a macro that expands itself without end
+    static int macro_depth = 0;
+    if (macro_depth >= max_macro_depth)
+    {
+        error(error_infinite_loop_detected);
+        exit(-1);  // NOLINT(concurrency-mt-unsafe)
+    }
+    macro_depth++;
+
     macro_dict_entry* macro_dict_entry = create_macro_entry(p->macro.name);
     push_macro_params();
-
     expansion_type = macro_parameter;
     macro_parameter_index = 0;
 
@@ -1489,7 +1498,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     last_label = temp;
     pop_macro_params();
-
+    macro_depth--;
     return 0;
 }
 
-- 
2.43.0


From 1a7d4e361f3c9ace0696aa31df485f05d15948f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 48/88] fix: arguments of a nested macro call saw parameters
 that the same call had already changed

---
 CMakePasm/source/expand.cc | 42 +++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 3b42e39..1d2c809 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -16,6 +16,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 #include "expand.h"
 #include "dictionary.h"
@@ -184,6 +185,9 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+// values of the arguments of the macro call that is expanded
+static std::vector<int> macro_arguments;
+
 //
 // flag to unroll loops
 // always true for now
@@ -1179,7 +1183,6 @@ int expand_operator_org_node(const parse_node_ptr p)
 int expand_operator_expression_list_node(const parse_node_ptr p)
 {
     symbol_table_ptr symbol_ptr = nullptr;
-    char sym_name[max_macro_param_name_len] = { 0 };
 
     for (int index = 0; index < p->number_of_ops; index++)
     {
@@ -1250,20 +1253,11 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             if (++macro_parameter_index > max_macro_param)
                 max_macro_param = macro_parameter_index;
 
-            sprintf(sym_name, "\\%d", macro_parameter_index);
-            symbol_ptr = add_symbol(sym_name);
-            if (symbol_ptr != nullptr)
             {
                 const int value = expand_node(pp);
                 if (final_pass && (value & ~0xFFFF) != 0)
                     error(error_value_out_of_range);
-                set_symbol_value(symbol_ptr, value);
-                symbol_ptr->is_initialized = true;
-            }
-            else
-            {
-                error(error_out_of_memory);
-                exit(-1);
+                macro_arguments.push_back(value);
             }
             break;
 
@@ -1464,6 +1458,29 @@ int expand_macro_id_node(const parse_node_ptr p)
     return sym->value;
 }
 
+/// <summary>
+/// Gives the macro parameters their values. The arguments may refer to the
+/// parameters of the macro that contains the call, so all of them are
+/// evaluated before the first parameter changes.
+/// </summary>
+static void set_macro_parameters(void)
+{
+    char sym_name[max_macro_param_name_len] = { 0 };
+
+    for (size_t index = 0; index < macro_arguments.size(); index++)
+    {
+        sprintf(sym_name, "\\%d", static_cast<int>(index) + 1);
+        const symbol_table_ptr symbol_ptr = add_symbol(sym_name);
+        if (symbol_ptr == nullptr)
+        {
+            error(error_out_of_memory);
+            exit(-1);
+        }
+        set_symbol_value(symbol_ptr, macro_arguments[index]);
+        symbol_ptr->is_initialized = true;
+    }
+}
+
 /// <summary>
 /// Operator Macro Expansion (macro call)
 /// </summary>
@@ -1484,10 +1501,11 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     push_macro_params();
     expansion_type = macro_parameter;
     macro_parameter_index = 0;
+    macro_arguments.clear();
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
-
+    set_macro_parameters();
     char* temp = last_label;
     last_label = macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
-- 
2.43.0


From 1362bfaa0c323428b9cef90b00fc8ecf50900c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:01 +0000
Subject: [PATCH 49/88] fix: output that could not be written completely was
 reported as success

---
 CMakePasm/source/pass.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index baa82b0..4e44fa3 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -162,6 +162,16 @@ void parse_pass(void)
     }
 }
 
+/**
+ * \brief Close a file that was written. What is still buffered may not fit
+ */
+static void close_written_file(FILE* file)
+{
+    const bool failed = ferror(file) != 0;
+    if (fclose(file) != 0 || failed)
+        error(error_writing_output_file);
+}
+
 int assemble(void)
 {
     error_count = 0;
@@ -256,7 +266,7 @@ int assemble(void)
     // close output line_content
     if (output_file != nullptr)
     {
-        fclose(output_file);
+        close_written_file(output_file);
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
@@ -273,7 +283,7 @@ int assemble(void)
         // display the symbols
         dump_symbols(sym_file);
 
-        fclose(sym_file);
+        close_written_file(sym_file);
     }
 
 
@@ -288,7 +298,7 @@ int assemble(void)
         else
         {
             generate_list_file(list_file);
-            fclose(list_file);
+            close_written_file(list_file);
         }
     }
 
@@ -302,6 +312,9 @@ int assemble(void)
 
     delete_list_table();
 
+    if (log_file.is_open() && !log_file)
+        error(error_writing_output_file);
+
     // errors that only show up while generating output
     if (error_count > 0)
     {
-- 
2.43.0


From 75341998e520b0f749127d798e7943f984fef707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:51 +0000
Subject: [PATCH 50/88] fix: .load of a directory never ended or was ignored

---
 CMakePasm/source/expand.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1d2c809..f316b48 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -428,6 +428,15 @@ int expand_operator_load_node(const parse_node_ptr p)
         return 0;
     }
 
+    // a directory can be opened but not read
+    fgetc(fd);
+    if (ferror(fd))
+    {
+        error2(error_cant_open_include_file, file);
+        fclose(fd);
+        return 0;
+    }
+
     fseek(fd, 0, SEEK_END);
     const size_t len = ftell(fd);
     fseek(fd, 0, SEEK_SET);
-- 
2.43.0


From 4c4e0a3c922069ce191d1c9e9d3eaff57e9d3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 51/88] fix: with the C64 header a .fill that comes first lost
 two bytes

---
 CMakePasm/source/genoutput.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 9353360..0550a0f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -266,8 +266,6 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
 int generate_output(FILE* file, const parse_node_ptr p)
 {
     int bytes_written;
-    const int start_bytes = total_bytes_written;
-
     // if there is no output file exit
     if (file == NULL)
         return 0;
@@ -281,6 +279,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
             return 0;
         }
     }
+    const int start_bytes = total_bytes_written;
 
     // the header is not part of the image
     const int delta = program_counter - (origin + total_bytes_written - byte_delta);
-- 
2.43.0


From 10914fab31e02cb167914fa8bb9cdc0011ee85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 52/88] fix: without -o, values that do not fit were not
 reported

---
 CMakePasm/source/genoutput.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 0550a0f..b1b99b8 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -56,6 +56,10 @@ int write_data(FILE* file, const int data)
 
 int write_byte(FILE* file, const unsigned char ch)
 {
+    // without an output file the data is only checked
+    if (file == NULL)
+        return 1;
+
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(&ch, 1, 1, file));
     if (bytes_written < 1)
@@ -82,6 +86,11 @@ int write_word(FILE* file, const int word)
 int write_string(FILE* file, const char* str)
 {
     const size_t len = strlen(str);
+
+    // without an output file the data is only checked
+    if (file == NULL)
+        return static_cast<int>(len);
+
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
     if (bytes_written < static_cast<int>(len))
@@ -266,9 +275,6 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
 int generate_output(FILE* file, const parse_node_ptr p)
 {
     int bytes_written;
-    // if there is no output file exit
-    if (file == NULL)
-        return 0;
 
     // header
     if (total_bytes_written == 0)
-- 
2.43.0


From 3cc2688f83d4cf389196f80a6a9f8b8cf11b59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 53/88] fix: a local label that is not defined was assembled as
 0 before the first global label

---
 CMakePasm/source/sym.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 8e6abe4..a3588c2 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -214,8 +214,6 @@ symbol_table_ptr add_symbol(char* name)
     if (sym.name[0] == '@')
     {
         sym.is_local = true;
-        sym.is_initialized = true;
-        sym.value = 0;
     }
 
     current_scope = temp_section;
-- 
2.43.0


From 186fa1d266b8860af5b1398cc50ff350e78a2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 54/88] fix: an .ifdef that holds was accepted without .endif

---
 CMakePasm/source/pasm.l | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index ab75d35..4e84cc2 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -464,6 +464,12 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 }
                                 if ( !YY_CURRENT_BUFFER )
                                 {
+                                    // the conditional was never closed
+                                    if (ifdef_stack->instance->index >= 0)
+                                    {
+                                        yyerror("Parse: unexpected end of file");
+                                        ifdef_stack->clear(ifdef_stack->instance);
+                                    }
                                     yyterminate();
                                 }
                             }      
-- 
2.43.0


From 2143cbf950de9c2f6e38cb5b6d0516ecbf32d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 55/88] fix: the time of the final pass and of the listing grew
 with the square of the number of rows

---
 CMakePasm/source/genlist.cc | 21 +++++++++++----------
 CMakePasm/source/genlist.h  |  1 +
 CMakePasm/source/node.cc    | 10 ----------
 3 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 74f6205..f043a75 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -20,6 +20,7 @@
 bool Debug_AddList = false;
 
 list_table_ptr list_head = nullptr;
+static list_table_ptr list_tail = nullptr;
 file_entry* source_file_list = nullptr;
 
 file_line_node* get_file_line(char* file, const int line)
@@ -49,9 +50,14 @@ file_line_node* get_file_line(char* file, const int line)
 
         if (stricmp(current_file_entry->filename, file) == 0)
         {
-            file_line_node* line_entry = current_file_entry->lines;
+            // lines are mostly asked for in order
+            file_line_node* line_entry = current_file_entry->last_line;
+            if (line_entry == nullptr || line_entry->line_number > line)
+                line_entry = current_file_entry->lines;
             for (; line_entry && line_entry->line_number < line; line_entry = line_entry->next)
                 ;
+            if (line_entry)
+                current_file_entry->last_line = line_entry;
             return line_entry;
         }
     }
@@ -74,6 +80,7 @@ void delete_list_table(void)
         list_node = next;
     }
     list_head = nullptr;
+    list_tail = nullptr;
 }
 
 void generate_list_file(FILE* list_file)
@@ -237,18 +244,12 @@ list_table_ptr add_list(const char* file, int line, const char* output)
         error(error_out_of_memory);
         exit(-1);
     }
-    list_table_ptr tmp_ptr = list_head;
 
     if (list_head == nullptr)
-    {
         list_head = var_ptr;
-        return var_ptr;
-    }
-
-    while (tmp_ptr->next != nullptr)
-        tmp_ptr = tmp_ptr->next;
-
-    tmp_ptr->next = var_ptr;
+    else
+        list_tail->next = var_ptr;
+    list_tail = var_ptr;
 
     return var_ptr;
 }
diff --git a/CMakePasm/source/genlist.h b/CMakePasm/source/genlist.h
index f803ea3..81ca2e0 100644
--- a/CMakePasm/source/genlist.h
+++ b/CMakePasm/source/genlist.h
@@ -17,6 +17,7 @@ typedef struct file_entry
 {
     char* filename;
     file_line_node* lines;
+    file_line_node* last_line;
     struct file_entry* next;
 } file_entry;
 
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 6b98b64..87c3d07 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1721,16 +1721,6 @@ int generate_list_node(const parse_node_ptr p)
             return 0;
         }
 
-        // see if we can append to last node
-        list_table_ptr current_list_ptr = list_head;
-        if (current_list_ptr)
-        {
-            while (current_list_ptr->next)
-            {
-                current_list_ptr = current_list_ptr->next;
-            }
-        }
-
         // output lo byte
         sprintf(current_ptr, " $%02X", lo);
         current_ptr += strlen(current_ptr);
-- 
2.43.0


From dd968d74bb60a548e90999cfa67c704b7d13a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 56/88] fix: with CRLF line ends labels on the first line of an
 include file and + labels after a comment were not found

---
 CMakePasm/source/pasm.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 4e84cc2..49aca26 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -157,7 +157,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 "RMB"[0-7]                  { OP_65C02_REL(rmb) }
 "SMB"[0-7]                  { OP_65C02_REL(smb) }
 
-[\xD\xA]|[\xA]|[\xD]        { P_TOK("EOL") SV_TOK return EOL; }
+[\xD][\xA]|[\xA]|[\xD]      { P_TOK("EOL") SV_TOK return EOL; }
 ".IFDEF"[ \t]+{SYMB}        {
                                 P_TOK("IF_DEF")
                                 SV_TOK
@@ -349,7 +349,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token == nullptr || *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n' || *last_token == '\r')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
@@ -387,7 +387,7 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 "Y"                         { P_TOK("Y") SV_TOK return 'Y'; }
 {SYMB}:?                    {                
                                 auto len =  last_token == nullptr ? 0 : (int)strlen(last_token);                               
-                                bool is_label = (last_token == nullptr || *last_token == '\n');                                
+                                bool is_label = (last_token == nullptr || *last_token == '\n' || *last_token == '\r');                                
                                 bool is_macro_name = len > 3 && 
                                 last_token[0] == '.' && 
                                     (last_token[1] == 'm' || last_token[1] == 'M') &&
-- 
2.43.0


From be8a02fe0b83244296da8412a1cfc3327eba8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:00 +0000
Subject: [PATCH 57/88] fix: a use of a label defined with a colon did not
 always count for the symbol file

---
 CMakePasm/source/pasm.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 49aca26..da34788 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -397,7 +397,11 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                                                         
                                 SV_TOK
                                 yylval.strValue = (char*)STRDUP(yytext); 
+                                // the colon is not part of the name
+                                char* colon = strchr(yylval.strValue, ':');
+                                if (colon != nullptr) *colon = 0;
                                 symbol_table_ptr sym = look_up_symbol(yylval.strValue);
+                                if (colon != nullptr) *colon = ':';
                                 if (sym != NULL)
                                 {
                                     if (sym->is_macro_name)
-- 
2.43.0


From 48c5af6d204158a40db05f4d4f186155f3910165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 58/88] fix: the listing lacked values above 255 in strings and
 showed jmp (abs,x) without parentheses

---
 CMakePasm/source/node.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 87c3d07..20b7588 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1712,8 +1712,8 @@ int generate_list_node(const parse_node_ptr p)
         {
             hi = 0;
         }
-        // check for overflow
-        if (hi != 0 && data_size < 2)
+        // check for overflow, values in strings have the size they need
+        if (hi != 0 && data_size == 1)
         {
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
@@ -1726,7 +1726,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (data_size > 1 || (data_size == 0 && hi != 0))
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
@@ -1852,7 +1852,7 @@ int generate_list_node(const parse_node_ptr p)
             break;
 
         case aix:    /* absolute indirect x  */  // NOLINT(bugprone-branch-clone)
-            sprintf(current_ptr, "$%04X,x ", op);
+            sprintf(current_ptr, "($%04X,x) ", op);
             break;
 
         case ax:     /* absolute x           */
-- 
2.43.0


From dc7d689f43b48ea87d8601469f6483d86aa22336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 59/88] fix: the listing was shifted after a source line longer
 than 2047 characters

---
 CMakePasm/source/file.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..b09776a 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -134,6 +134,23 @@ file_line_node* read_file_lines(const char* file_name)
         internal_buffer[0] = 0;
         if (fgets(internal_buffer, max_line_len, file))
         {
+            // a line that is longer than the buffer comes in parts
+            if (file_node != NULL)
+            {
+                const size_t len = strlen(file_node->line_content);
+                if (len > 0 && file_node->line_content[len - 1] != '\n')
+                {
+                    auto line_content = static_cast<char*>(REALLOC(file_node->line_content, len + strlen(internal_buffer) + 1));
+                    if (line_content == NULL)
+                    {
+                        error(error_out_of_memory);
+                        return NULL;
+                    }
+                    strcpy(line_content + len, internal_buffer);
+                    file_node->line_content = line_content;
+                    continue;
+                }
+            }
             if (file_node == NULL)
             {
                 // ReSharper disable once CppCStyleCast
-- 
2.43.0


From 57db3e94706d0cd264aa9952846af95f90e71aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:25 +0000
Subject: [PATCH 60/88] fix: the symbol file listed names that were only looked
 for in a section and never defined

---
 CMakePasm/source/sym.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index a3588c2..80aeffa 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -687,7 +687,8 @@ void dump_symbols(FILE* file)
         for (element_ptr element = symbol_dictionary->table[index]; element != 0; element = element->next)
         {
             const auto sym = static_cast<symbol_table_ptr>(element->value);
-            if (sym->is_var == false && sym->is_macro_param == false && 
+            // a reference in a section can leave an entry that was never defined
+            if (sym->is_initialized && sym->is_var == false && sym->is_macro_param == false && 
                 sym->is_macro_name == false && sym->is_plus_minus == false && sym->is_local == false &&
                 pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false)
             {
-- 
2.43.0


From fc136287a8d2cade846d94f4618a2092bc6678ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:13 +0000
Subject: [PATCH 61/88] fix: in strings \x00 dropped the rest of the string and
 \x with one digit became that digit

---
 CMakePasm/source/genoutput.cc |  8 +++-----
 CMakePasm/source/node.cc      |  3 +--
 CMakePasm/source/str.cc       | 14 +++++++++++++-
 CMakePasm/source/str.h        |  3 ++-
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b1b99b8..ee2a110 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -22,7 +22,7 @@ int origin = 0;
 
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
-int write_string(FILE* file, const char* str);
+int write_string(FILE* file, const char* str, size_t len);
 
 /**
  * \brief reset output variables
@@ -83,10 +83,8 @@ int write_word(FILE* file, const int word)
     return bytes_written;
 }
 
-int write_string(FILE* file, const char* str)
+int write_string(FILE* file, const char* str, const size_t len)
 {
-    const size_t len = strlen(str);
-
     // without an output file the data is only checked
     if (file == NULL)
         return static_cast<int>(len);
@@ -140,7 +138,7 @@ int write_program_counter_pad(FILE* file, const int delta)
 
 int write_string_node(FILE* file, const parse_node_ptr p)
 {
-    int bytes_written = write_string(output_file, p->str.value);
+    int bytes_written = write_string(output_file, p->str.value, p->str.len);
     total_bytes_written += (int)bytes_written;
     if (bytes_written < p->str.len)
     {
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 20b7588..66a7863 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -142,13 +142,12 @@ parse_node_ptr string_node(const char* value)
     if (p->str.value)
         FREE(p->str.value);
 
-    p->str.value = sanitize_string(str);
+    p->str.value = sanitize_string(str, &p->str.len);
     if (p->str.value == nullptr)
     {
         error(error_out_of_memory);
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
-    p->str.len = static_cast<int>(strlen(p->str.value));
 
     return p;
 }
diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 5688386..5f09155 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -13,9 +13,10 @@
 /**
  * \brief Normalize a string that may contain escape chars
  * \param str string to normalize
+ * \param out_len receives the length of the new string, which may hold zeros
  * \return a newly allocated string
  */
-char* sanitize_string(char* str)
+char* sanitize_string(char* str, int* out_len)
 {
     const int len = static_cast<int>(strlen(str)) + 1;
 
@@ -77,6 +78,14 @@ char* sanitize_string(char* str)
                     error(error_unrecognized_escape_sequence);
                     break;
                 }
+                // a single digit
+                if (isxdigit(*str) && !isxdigit(*(str + 1)))
+                {
+                    const char temp[2] = { *str, 0 };
+                    *tmp_str++ = static_cast<char>((int)strtol(temp, NULL, 16));
+                    str++;
+                    continue;
+                }
                 while (isxdigit(*str) && isxdigit(*(str + 1)))
                 {
                     char temp[3] = { 0 };
@@ -107,5 +116,8 @@ char* sanitize_string(char* str)
         }
     }
 
+    if (out_len != NULL)
+        *out_len = static_cast<int>(tmp_str - out_str);
+
     return out_str;
 }
diff --git a/CMakePasm/source/str.h b/CMakePasm/source/str.h
index 0fcec2b..c9740e6 100644
--- a/CMakePasm/source/str.h
+++ b/CMakePasm/source/str.h
@@ -1,3 +1,4 @@
 #pragma once
 
-extern char* sanitize_string(char* str);
+// len receives the number of characters, the string may hold zeros
+extern char* sanitize_string(char* str, int* len = NULL);
-- 
2.43.0


From 0611084251b8483bdecbc22ffbe2acccedf704db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:28 +0000
Subject: [PATCH 62/88] fix: a | followed by - without a space was read as one
 name

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index da34788..982e1b7 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -348,7 +348,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 yylval.strValue = (char*)STRDUP(yytext); 
                                 return SYMBOL;
                             }
-[\+|\-]+                    {
+[\+\-]+                     {
                                 if (last_token == nullptr || *last_token == '\n' || *last_token == '\r')
                                 {
                                     SV_TOK
-- 
2.43.0


From 496d5f8572240b6f46c561618cdd986e60da7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 63/88] fix: malformed literals ($, %, 0b without digits, '\x',
 unclosed '\' and mixed quotes) were accepted as some value

---
 CMakePasm/source/pasm.l | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 982e1b7..e16634d 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -369,15 +369,15 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     return *yytext;
                                 }
                             }
-[\'].[\']                   { SV_TOK INT_1BYTE }
-[\'][\\].[\']               { SV_TOK INT_1BYTE }
-[\"].[\"]                   { SV_TOK INT_1BYTE }
-[\"][\\].[\'"]              { SV_TOK INT_1BYTE }
-$[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
+[\'][^\\\n][\']              { SV_TOK INT_1BYTE }
+[\'][\\][^x\n][\']          { SV_TOK INT_1BYTE }
+[\"][^\\\n][\"]              { SV_TOK INT_1BYTE }
+[\"][\\][^x\n][\"]          { SV_TOK INT_1BYTE }
+$[0-9A-Fa-f]+               { SV_TOK INT(1, 16)}
 [\'][\\]x[0-9A-Fa-f]+[\']   { SV_TOK INT(3, 16)}
-[0-9]*                      { SV_TOK INT(0, 10)}
-%[0-1]*                     { SV_TOK INT(1, 2) }
-0b[0-1]*                    { SV_TOK INT(2, 2) }
+[0-9]+                      { SV_TOK INT(0, 10)}
+%[0-1]+                     { SV_TOK INT(1, 2) }
+0b[0-1]+                    { SV_TOK INT(2, 2) }
 [\'][\\][0-7]{3}[\']        { SV_TOK INT(2, 8) }
 
 {STRVALUE}                  { P_TOK("STRING_LITERAL") SV_TOK yylval.strValue = (char*)STRDUP(yytext); return STRING_LITERAL; }
-- 
2.43.0


From 69febf2dac6cb10661b7692e813a42b63d29f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 64/88] fix: lines after .print on that emit nothing were
 missing in the listing

---
 CMakePasm/source/genlist.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index f043a75..803caf9 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -121,10 +121,14 @@ void generate_list_file(FILE* list_file)
             fprintf(list_file, "; Processing %s\n", current_file_name);
         }
 
+        // the line of .print on itself is not listed, the lines after it are
+        bool print_on = false;
         if (list_node->print_state != state)
         {
             state = list_node->print_state;
-            continue;
+            if (!state)
+                continue;
+            print_on = true;
         }
         if (list_node->list_directive)
         {
@@ -147,7 +151,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        if (source_list->displayed == 0)
+        if (print_on)
+        {
+            source_list->displayed++;
+        }
+        else if (source_list->displayed == 0)
         {
             if (state)
             {
-- 
2.43.0


From a9310bd0932454b0527f54d8ed8f964f98774c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:43 +0000
Subject: [PATCH 65/88] fix: malformed values and empty names of -d were
 accepted, large values wrapped

---
 CMakePasm/source/parseargs.cc | 64 +++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index e52fe80..33b6f54 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -50,6 +50,41 @@ int pre_parse()
     return 0;
 }
 
+/**
+ * \brief Convert the value of a define
+ * \param val text of the value
+ * \param result value
+ * \return false if it is not a number
+ */
+static bool parse_value(const char* val, int& result)
+{
+    int base = 10;
+
+    if (val[0] == '$')
+    {
+        base = 16;
+        val++;
+    }
+    else if (val[0] == '%')
+    {
+        base = 2;
+        val++;
+    }
+    else if (val[0] == '0' && (val[1] == 'x' || val[1] == 'b'))
+    {
+        base = val[1] == 'x' ? 16 : 2;
+        val += 2;
+    }
+
+    char* end = NULL;
+    const long value = strtol(val, &end, base);
+    if (end == val || *end != 0 || value != (int)value)
+        return false;
+
+    result = (int)value;
+    return true;
+}
+
 int parse_arguments(const int argc, char* argv[])
 {
   
@@ -303,32 +338,11 @@ int parse_arguments(const int argc, char* argv[])
 
             int sym_val = 0;
 
-            if (val[0] == '$')
-            {
-                sym_val = (int)strtol(val + 1, NULL, 16);
-            }
-            else if (val[0] == '%')
+            if (sym_name[0] == 0 || !parse_value(val, sym_val))
             {
-                sym_val = (int)strtol(val + 1, NULL, 2);
-            }
-            else if (strlen(val) > 2)
-            {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
-                else
-                {
-                    sym_val = (int)strtol(val, NULL, 10);
-                }
-            }
-            else
-            {
-                sym_val = (int)strtol(val, NULL, 10);
+                error(error_invalid_parameters);
+                usage();
+                exit(-1);
             }
 
             // ReSharper disable once CppLocalVariableMayBeConst
-- 
2.43.0


From 6c7fa368c05f5c0d8fce939b4cfe439e918d885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:46 +0000
Subject: [PATCH 66/88] fix: directories of -dir without a trailing slash were
 never searched

---
 CMakePasm/source/file.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index b09776a..5827152 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -28,6 +28,18 @@ enum
 
 static char path[path_max] = { 0 };
 
+/**
+ * \brief Append a file name to the directory in path
+ * \param len length of the directory
+ * \param file name of file
+ */
+static void append_file_name(const int len, const char* file)
+{
+    if (len > 0 && path[len - 1] != '/' && path[len - 1] != '\\')
+        strcat(path, "/");
+    strcat(path, file);
+}
+
 void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode)
 {
     file.open(filename, mode);
@@ -51,7 +63,7 @@ void open_file_stream(std::ofstream& file, const char* filename, const std::ios:
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
-        strcat(path, filename);
+        append_file_name(len, filename);
         file.open(path, mode);
         if (file.is_open())
             return;
@@ -97,7 +109,7 @@ FILE* open_file(const char* file, const char* mode)
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
-        strcat(path, file);
+        append_file_name(len, file);
         fd = fopen(path, mode);
         if (fd != NULL)
             return fd;
-- 
2.43.0


From 8bb481e62976f0ceccdbe7323debb49ed881c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:26 +0000
Subject: [PATCH 67/88] fix: .end inside .repeat never ended

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f316b48..d955e9b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1591,7 +1591,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
             error(error_infinite_loop_detected);
             return 0;
         }
-    } while (expand_node(p->op[1]) == 0);
+    } while (!end_expansion && expand_node(p->op[1]) == 0);
     return 0;
 }
 
-- 
2.43.0


From 31c68c1725cdac51428dcf25467bdb152f77b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:30 +0000
Subject: [PATCH 68/88] fix: .for up to the largest value overflowed and did
 not end

---
 CMakePasm/source/expand.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index d955e9b..f252689 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1674,7 +1674,11 @@ int expand_operator_for_node(const parse_node_ptr p)
                 error(error_infinite_loop_detected);
                 return 0;
             }
-            set_symbol_value(sym, sym->value + step_val);
+            // the last value may be the largest there is
+            const long long next_value = static_cast<long long>(sym->value) + step_val;
+            if (next_value != static_cast<int>(next_value))
+                break;
+            set_symbol_value(sym, static_cast<int>(next_value));
         } while (true);
     }
     else
-- 
2.43.0


From 862296843eb71a505a486a519bb4e00a2ed10a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:11 +0000
Subject: [PATCH 69/88] fix: a macro used before its definition was expanded
 from the freed tree of the pass before

---
 CMakePasm/source/pass.cc |  1 +
 CMakePasm/source/sym.cc  | 19 +++++++++++++++++++
 CMakePasm/source/sym.h   |  1 +
 3 files changed, 21 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4e44fa3..c37df38 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -66,6 +66,7 @@ void reset_lex(void)
     head_node->type = type_head_node;
 
     reset_macro_dict();
+    reset_macro_symbols();
 
     // initialize expander
     init_expander();
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 80aeffa..17eb3ae 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -807,6 +807,25 @@ void dump_unresolved_symbols(FILE* file)
     FREE(entry_array);
 }
 
+/**
+ * \brief Forget the bodies of all macros. They belong to the parse tree of a pass
+ */
+void reset_macro_symbols(void)
+{
+    if (symbol_dictionary == NULL)
+        return;
+
+    for (int index = 0; index < symbol_dictionary->size; index++)
+    {
+        for (element_ptr elem = symbol_dictionary->table[index]; elem; elem = elem->next)
+        {
+            const auto sym = static_cast<symbol_table_ptr>(elem->value);
+            sym->macro_node = NULL;
+            sym->is_macro_name = false;
+        }
+    }
+}
+
 int unresolved_symbol_count(void)
 {
     int count = 0;
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..3514294 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -46,6 +46,7 @@ extern int find_plus_symbol_definition(const char* file, int line);
 extern void push_macro_params(void);
 extern void pop_macro_params(void);
 extern int unresolved_symbol_count(void);
+extern void reset_macro_symbols(void);
 extern void dump_symbols(FILE* file);
 extern void dump_unresolved_symbols(FILE* file);
 extern void dump_changed_symbols(FILE* file);
-- 
2.43.0


From fe662e1b61f68012479a3a6b5990e55476ced5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 70/88] fix: the program counter overflowed after huge .ds,
 .fill, .org or * = values

---
 CMakePasm/source/expand.cc | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f252689..68c674d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -45,6 +45,10 @@ extern int origin;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
+
+// far more than any program has, so that sums of addresses do not overflow
+static const int program_counter_limit = 0x1000000;
+static int limit_address(long long address);
 constexpr int max_macro_depth = 1000;
 
 // number of symbols whose values changed
@@ -363,7 +367,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
         error(error_value_out_of_range);
         exit(-1);
     }
-    if (count < 0)
+    if (count < 0 || count > program_counter_limit)
     {
         error(error_value_out_of_range);
         exit(-1);
@@ -410,11 +414,26 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count;
+        program_counter = limit_address(static_cast<long long>(program_counter) + count);
     }
     return byt;
 }
 
+/// <summary>
+/// Keeps an address in a range in which sums of addresses do not overflow
+/// </summary>
+/// <param name="address">The address.</param>
+/// <returns>int.</returns>
+static int limit_address(const long long address)
+{
+    if (address >= -program_counter_limit && address <= program_counter_limit)
+        return static_cast<int>(address);
+
+    if (final_pass)
+        error(error_value_out_of_range);
+    return address < 0 ? -program_counter_limit : program_counter_limit;
+}
+
 //
 // Load node
 //
@@ -1154,7 +1173,7 @@ int expand_operator_hi_byte_node(const parse_node_ptr p)
 int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 {
     program_counter_assigned++;
-    const int op = expand_node(p->op[0]);
+    const int op = limit_address(expand_node(p->op[0]));
     origin_specified = true;
 
     program_counter = op;
@@ -1176,7 +1195,7 @@ int expand_operator_org_node(const parse_node_ptr p)
         error(error_org_specified_more_than_once);
         return 0;
     }
-    const int op = expand_node(p->op[0]);
+    const int op = limit_address(expand_node(p->op[0]));
     program_counter = op;
     generate_output_set_address(op);
     origin_specified = true;
@@ -1748,7 +1767,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 {
     const int op = expand_node(p->op[0]);
     int count = op;
-    if (count < 0)
+    if (count < 0 || count > program_counter_limit)
     {
         error(error_value_out_of_range);
         exit(-1);
@@ -1756,7 +1775,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 
 //    if (final_pass)
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter = limit_address(static_cast<long long>(program_counter) + (count > 0 ? count : 1));
     }
     
     return op;
-- 
2.43.0


From da3811503f8a867d2b08b2989d99f863cfec9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 71/88] fix: a pass began with the processor, illegal opcode
 and warning settings that the pass before had at its end

---
 CMakePasm/source/pass.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index c37df38..994a463 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,6 +14,7 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
@@ -201,6 +202,12 @@ int assemble(void)
         }
     }
 
+    // directives change these from their line on, every pass starts with what
+    // the command line selected
+    const cpu initial_cpu_mode = cpu_mode;
+    const int initial_illegal_op_codes = allow_illegal_op_codes;
+    const bool initial_ignore_warnings = ignore_warnings;
+
     int clean_pass_count = 0;
     do
     {
@@ -209,6 +216,9 @@ int assemble(void)
             fprintf(console, "Pass %d\n", pass);
         }
 
+        cpu_mode = initial_cpu_mode;
+        allow_illegal_op_codes = initial_illegal_op_codes;
+        ignore_warnings = initial_ignore_warnings;
         parse_pass();
 
         const int unresolved_count = unresolved_symbol_count();
@@ -262,6 +272,9 @@ int assemble(void)
         }
     }
 
+    cpu_mode = initial_cpu_mode;
+    allow_illegal_op_codes = initial_illegal_op_codes;
+    ignore_warnings = initial_ignore_warnings;
     parse_pass();
 
     // close output line_content
-- 
2.43.0


From c3c414e3c9a74b039fe7320ecaf81247311358e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:45 +0000
Subject: [PATCH 72/88] fix: a loop that fills memory up to the last address
 was taken for an endless one

---
 CMakePasm/source/expand.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 68c674d..8d39ce4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1585,7 +1585,7 @@ int expand_operator_while_node(const parse_node_ptr p)
     {
         expand_node(p->op[1]);
 
-        if (program_counter > max_address)
+        if (program_counter > max_address + 1)
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1605,7 +1605,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
     {
         expand_node(p->op[0]);
 
-        if (program_counter > max_address)
+        if (program_counter > max_address + 1)
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1624,7 +1624,7 @@ int expand_operator_do_node(const parse_node_ptr p)
     do
     {
         expand_node(p->op[0]);
-        if (program_counter > max_address)
+        if (program_counter > max_address + 1)
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1688,7 +1688,7 @@ int expand_operator_for_node(const parse_node_ptr p)
 
             expand_node(p->op[2]);
 
-            if (program_counter > max_address)
+            if (program_counter > max_address + 1)
             {
                 error(error_infinite_loop_detected);
                 return 0;
-- 
2.43.0


From 8413aa0ad21abdbfc4f30dd5725862d61c9cca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:01 +0000
Subject: [PATCH 73/88] fix: * followed by == was read as an assignment to the
 program counter

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index e16634d..badb2c9 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -381,7 +381,7 @@ $[0-9A-Fa-f]+               { SV_TOK INT(1, 16)}
 [\'][\\][0-7]{3}[\']        { SV_TOK INT(2, 8) }
 
 {STRVALUE}                  { P_TOK("STRING_LITERAL") SV_TOK yylval.strValue = (char*)STRDUP(yytext); return STRING_LITERAL; }
-"*"[ \t]*[=]                { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
+"*"[ \t]*[=]/[^=]           { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "*"[ \t]*".EQU"             { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "X"                         { P_TOK("X") SV_TOK return 'X'; }
 "Y"                         { P_TOK("Y") SV_TOK return 'Y'; }
-- 
2.43.0


From 5afa6b078a64544e3f0cf418dd5d398713e8ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:22 +0000
Subject: [PATCH 74/88] fix: * alone as the operand of an instruction was a
 syntax error

---
 CMakePasm/source/pasm.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.y b/CMakePasm/source/pasm.y
index 2d072f8..01ffd9e 100644
--- a/CMakePasm/source/pasm.y
+++ b/CMakePasm/source/pasm.y
@@ -211,6 +211,7 @@ directive
 
 expr
     : INTEGER                           { B_TOK("expr INTEGER")                     $$ = constant_node($1, false);                              }
+    | '*'                               { B_TOK("expr PC")                          $$ = constant_node(program_counter, true);                  }
     | SYMBOL                            { B_TOK("expr SYMBOL")                      $$ = id_node($1);                                           }
     | '-'  INTEGER %prec UMINUS         { B_TOK("expr INTEGER UMINUS")              $$ = operator_node(UMINUS, 1, constant_node($2, false));    }
     | '-' '(' subexpr ')' %prec UMINUS  { B_TOK("expr subexpr UMINUS")              $$ = operator_node(UMINUS, 1, $3);                          }
@@ -241,7 +242,6 @@ expr
 
 subexpr
     : expr                              { B_TOK("subexpr expr")         $$ = $1;                                    }
-    | '*'                               { B_TOK("subexpr PC")           $$ = constant_node(program_counter, true);  }
     | '(' subexpr ')'                   { B_TOK("subexpr ( subexpr )")  $$ = $2;                                    }
     ;
 
-- 
2.43.0


From 9fcd93d3649ecd88d01fc1330bec178adb4a4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 75/88] fix: .ds 0 reserved a byte

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8d39ce4..c2079b6 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1775,7 +1775,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 
 //    if (final_pass)
     {
-        program_counter = limit_address(static_cast<long long>(program_counter) + (count > 0 ? count : 1));
+        program_counter = limit_address(static_cast<long long>(program_counter) + count);
     }
     
     return op;
-- 
2.43.0


From 313a6b16b2b91089a74b4f88fcd27509fbc67b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:56 +0000
Subject: [PATCH 76/88] fix: with the 65C02 undocumented 6502 opcodes were
 assembled without -i or .illegal on

---
 CMakePasm/source/opcodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/opcodes.cc b/CMakePasm/source/opcodes.cc
index 690bdcb..24792e0 100644
--- a/CMakePasm/source/opcodes.cc
+++ b/CMakePasm/source/opcodes.cc
@@ -450,7 +450,7 @@ int get_op_code(const int instruction, const int addressing_mode)
     if ((instruction >= 0 && instruction < _maxOpcode) &&
         (addressing_mode >= 0 && addressing_mode < max_addressing_mode))
     {
-        if (!allow_illegal_op_codes && instruction >= _illegalStart && cpu_mode == cpu_6502)
+        if (!allow_illegal_op_codes && instruction >= _illegalStart)
             return -1;
 
         switch (cpu_mode)  // NOLINT(hicpp-multiway-paths-covered)
-- 
2.43.0


From aab85b85c0092fddcb2e84033edb79ccbc47eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:54 +0000
Subject: [PATCH 77/88] fix: eolconvert exited with status 0 when a file could
 not be written completely

---
 CMakePasm/eolconvert/eolconvert.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 49edace..f0c62ff 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -31,6 +31,9 @@ bool is_text_file(const fs::path& path);
 
 fs::path base_path(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
 
+// number of files that could not be written completely
+int write_failures = 0;
+
 #ifdef WIN32
 // ReSharper disable once CppInconsistentNaming
 #define realpath(N,R) _fullpath((R),(N), 1024)
@@ -84,7 +87,7 @@ int main(const int argc, char** argv)
     cout << ":::::::::: install root path " << install_root_path << '\n';
     auto count = process_directory(source_path, source_root_path, install_root_path); 
     auto funresult =  count > 0 ? 0 : -1; 
-    return 0;
+    return write_failures > 0 ? 1 : 0;
 }
 
 string extract_directory(int n, const string& path)
@@ -266,6 +269,11 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
             outfile.flush();
             outfile.close();
         }
+        if (!outfile)
+        {
+            cerr << "error writing " << out_path << "\n";
+            write_failures++;
+        }
     }
 
     return 1;
-- 
2.43.0


From 917bc39fc5de930464d78bd0fa7812f53207d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 78/88] fix: branches out of range to a local, + or - label at
 address 0 were refused

---
 CMakePasm/source/expand.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c2079b6..38b520c 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -909,13 +909,7 @@ int expand_op_code_node(const parse_node_ptr p)
         for (int index = 0; index < p->number_of_ops; index++)
         {
             const parse_node_ptr pp = p->op[index];
-            int op_value = expand_node(pp);
-
-            // fix for local labels
-            const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
-            if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
-                && (ch == '@' || ch == '-' || ch =='+') )
-                op_value = program_counter;
+            const int op_value = expand_node(pp);
 
             // ReSharper disable once CppRedundantParentheses
             large_op = large_op | ((op_value & ~0xFF) != 0);
-- 
2.43.0


From 87fbd122e2166b6ff97c28e1135fcf06a68d00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 79/88] fix: files whose names differ only in case shared their
 +/- labels and their source lines in the listing

---
 CMakePasm/source/genlist.cc |  8 ++++----
 CMakePasm/source/sym.cc     | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 803caf9..4d56bc0 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -28,7 +28,7 @@ file_line_node* get_file_line(char* file, const int line)
     file_entry* current_file_entry = source_file_list;
     file_entry* prev = nullptr;
 
-    for (; current_file_entry != nullptr && stricmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
+    for (; current_file_entry != nullptr && strcmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
         prev = current_file_entry;
 
     if (!current_file_entry)
@@ -48,7 +48,7 @@ file_line_node* get_file_line(char* file, const int line)
         if (source_file_list == nullptr)
             source_file_list = current_file_entry;
 
-        if (stricmp(current_file_entry->filename, file) == 0)
+        if (strcmp(current_file_entry->filename, file) == 0)
         {
             // lines are mostly asked for in order
             file_line_node* line_entry = current_file_entry->last_line;
@@ -113,7 +113,7 @@ void generate_list_file(FILE* list_file)
     // loop through all list  nodes
     for (; list_node; list_node = list_node->next)
     {
-        if (current_file_name == nullptr || stricmp(current_file_name, list_node->filename))
+        if (current_file_name == nullptr || strcmp(current_file_name, list_node->filename))
         {
 
 
@@ -140,7 +140,7 @@ void generate_list_file(FILE* list_file)
 
         const int start_line = list_node->line;
         int end_line = start_line;
-        if (list_node->next && stricmp(list_node->filename, list_node->next->filename) == 0 &&
+        if (list_node->next && strcmp(list_node->filename, list_node->next->filename) == 0 &&
             list_node->next->line > list_node->line)
             end_line = list_node->next->line - 1;
 
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 17eb3ae..8311abf 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -57,7 +57,7 @@ static int plus_minus_sym_cmp_function(const void* a, const void* b);
 
 int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b)
 {
-    const int result = stricmp(a->file, b->file);
+    const int result = strcmp(a->file, b->file);
     if (result != 0) return result;
     return a->line - b->line;
 }
@@ -352,7 +352,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (minus_symbol_table[index].file == NULL)
             continue;
 
-        if (stricmp(file, minus_symbol_table[index].file) != 0)
+        if (strcmp(file, minus_symbol_table[index].file) != 0)
             continue;
 
         if (minus_symbol_table[index].line <= line)
@@ -364,7 +364,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     {
         // entries are sorted by file, the symbol must be in the same one
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 && stricmp(file, minus_symbol_table[found_index].file) == 0)
+        if (found_index >= 0 && strcmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -376,7 +376,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     int found_index = -1;
     for (int index = 0; index < plus_symbol_table_index; ++index)
     {
-        if (stricmp(file, plus_symbol_table[index].file) != 0)
+        if (strcmp(file, plus_symbol_table[index].file) != 0)
             continue;
 
         if (plus_symbol_table[index].line > line)
@@ -389,7 +389,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     {
         // entries are sorted by file, the symbol must be in the same one
         found_index = found_index -1 + depth;
-        if (found_index < plus_symbol_table_index && stricmp(file, plus_symbol_table[found_index].file) == 0)
+        if (found_index < plus_symbol_table_index && strcmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From d6847cd61b8787274d9e8257ccae77a6b8abc484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 80/88] fix: a file with + or - labels that was included twice
 was never assembled

---
 CMakePasm/source/file.cc    | 22 ++++++++++++++++++++++
 CMakePasm/source/file.h     |  2 ++
 CMakePasm/source/globals.cc |  1 +
 CMakePasm/source/pasm.h     |  2 ++
 CMakePasm/source/pasm.l     |  1 +
 CMakePasm/source/pass.cc    |  2 ++
 CMakePasm/source/sym.cc     | 21 ++++++++++++++++-----
 CMakePasm/source/sym.h      |  1 +
 8 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 5827152..8f4a6a1 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -11,6 +11,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <map>
+#include <string>
 
 #include "error.h"
 #include "flex.h"
@@ -28,6 +30,24 @@ enum
 
 static char path[path_max] = { 0 };
 
+// number of times each file was read in this pass
+static std::map<std::string, int> file_instances;
+
+/**
+ * \brief Number the times a file is read in a pass
+ * \param file name of file
+ * \return 1 the first time
+ */
+int next_file_instance(const char* file)
+{
+    return ++file_instances[file];
+}
+
+void reset_file_instances(void)
+{
+    file_instances.clear();
+}
+
 /**
  * \brief Append a file name to the directory in path
  * \param len length of the directory
@@ -218,6 +238,7 @@ int open_include_file(char* file)
     file_line_stack_entry file_line;
     file_line.file = current_file_name;
     file_line.line = yylineno;
+    file_line.instance = current_file_instance;
     
     file_stack->push(file_stack->instance, &file_line);
 
@@ -240,6 +261,7 @@ int open_include_file(char* file)
         }
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
+    current_file_instance = next_file_instance(file);
     yypush_buffer_state(yy_create_buffer(yyin, YY_BUF_SIZE));
     return 0;
 }
diff --git a/CMakePasm/source/file.h b/CMakePasm/source/file.h
index da90b8f..d612650 100644
--- a/CMakePasm/source/file.h
+++ b/CMakePasm/source/file.h
@@ -17,6 +17,8 @@ extern void free_file_lines(file_line_node*);
 extern FILE* open_file(const char* file, const char* mode);
 extern void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode);
 extern int open_include_file(char* file);
+extern int next_file_instance(const char* file);
+extern void reset_file_instances(void);
 
 extern std::ofstream log_file;
 extern FILE* sym_file;
diff --git a/CMakePasm/source/globals.cc b/CMakePasm/source/globals.cc
index 346eeff..40b4aed 100644
--- a/CMakePasm/source/globals.cc
+++ b/CMakePasm/source/globals.cc
@@ -30,6 +30,7 @@ bool verbose = false;
 char** input_files = nullptr;
 char* internal_buffer = nullptr;
 char* current_file_name = nullptr;
+int current_file_instance = 0;
 char* directories = nullptr;
 char* output_file_name = nullptr;
 char* sym_file_name = nullptr;
diff --git a/CMakePasm/source/pasm.h b/CMakePasm/source/pasm.h
index 4481399..2eaf3f7 100644
--- a/CMakePasm/source/pasm.h
+++ b/CMakePasm/source/pasm.h
@@ -18,6 +18,7 @@ typedef struct file_line_stack_entry
 {
     char* file;
     int line;
+    int instance;
 } file_line_stack_entry;
 
 extern void reset_lex(void);
@@ -37,6 +38,7 @@ extern int in_macro_definition;
 extern int pass;
 extern int program_counter;
 extern int input_file_count;
+extern int current_file_instance;
 extern int program_origin_default;
 
 extern stack_ptr file_stack;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index badb2c9..344b1d6 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -463,6 +463,7 @@ $[0-9A-Fa-f]+               { SV_TOK INT(1, 16)}
                                     const file_line_stack_entry* file_line = (file_line_stack_entry*) file_stack->pop(file_stack->instance);
                                     current_file_name = file_line->file;
                                     yylineno = file_line->line;
+                                    current_file_instance = file_line->instance;
 
                                     if (final_pass) generate_list_node(NULL);
                                 }
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 994a463..eb0a32c 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -106,6 +106,7 @@ void reset_lex(void)
 void parse_pass(void)
 {
     reset_lex();
+    reset_file_instances();
 
     // loop through each input line_content
     for (int in_file_index = 0; in_file_index < input_file_count; in_file_index++)
@@ -114,6 +115,7 @@ void parse_pass(void)
         yylineno = 0;
 
         current_file_name = input_files[in_file_index];
+        current_file_instance = next_file_instance(current_file_name);
         yyin = open_file(current_file_name, "r");
         if (yyin == nullptr)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 8311abf..811f375 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -59,6 +59,7 @@ int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b)
 {
     const int result = strcmp(a->file, b->file);
     if (result != 0) return result;
+    if (a->instance != b->instance) return a->instance - b->instance;
     return a->line - b->line;
 }
 
@@ -69,10 +70,18 @@ int plus_minus_sym_cmp_function(const void* a, const void* b)
 
 int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, const int line)
 {
-    const plus_minus_sym b = { file, line, 0 };
+    const plus_minus_sym b = { file, line, 0, current_file_instance };
     return compare_plus_minus_sym(a, &b);
 }
 
+/// <summary>
+/// Is the label in the file, as it is read now
+/// </summary>
+static bool is_in_file(const plus_minus_sym* a, const char* file)
+{
+    return strcmp(a->file, file) == 0 && a->instance == current_file_instance;
+}
+
 symbol_table_ptr add_plus_minus_sym(char* name)
 {
     const auto blank = "";
@@ -352,7 +361,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (minus_symbol_table[index].file == NULL)
             continue;
 
-        if (strcmp(file, minus_symbol_table[index].file) != 0)
+        if (!is_in_file(&minus_symbol_table[index], file))
             continue;
 
         if (minus_symbol_table[index].line <= line)
@@ -364,7 +373,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     {
         // entries are sorted by file, the symbol must be in the same one
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 && strcmp(file, minus_symbol_table[found_index].file) == 0)
+        if (found_index >= 0 && is_in_file(&minus_symbol_table[found_index], file))
             return found_index;
     }
     return -1;
@@ -376,7 +385,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     int found_index = -1;
     for (int index = 0; index < plus_symbol_table_index; ++index)
     {
-        if (strcmp(file, plus_symbol_table[index].file) != 0)
+        if (!is_in_file(&plus_symbol_table[index], file))
             continue;
 
         if (plus_symbol_table[index].line > line)
@@ -389,7 +398,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     {
         // entries are sorted by file, the symbol must be in the same one
         found_index = found_index -1 + depth;
-        if (found_index < plus_symbol_table_index && strcmp(file, plus_symbol_table[found_index].file) == 0)
+        if (found_index < plus_symbol_table_index && is_in_file(&plus_symbol_table[found_index], file))
             return found_index;
     }
     return -1;
@@ -423,6 +432,7 @@ void add_minus_symbol(const char* file, const int line, const int value)
     minus_symbol_table[minus_symbol_table_index].file = (char*)STRDUP(file);
     minus_symbol_table[minus_symbol_table_index].line = line;
     minus_symbol_table[minus_symbol_table_index].value = value;
+    minus_symbol_table[minus_symbol_table_index].instance = current_file_instance;
     ++minus_symbol_table_index;
 
     qsort(minus_symbol_table, minus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
@@ -451,6 +461,7 @@ void add_plus_symbol(const char* file, const int line, const int value)
     plus_symbol_table[plus_symbol_table_index].file = (char*)STRDUP(file);
     plus_symbol_table[plus_symbol_table_index].line = line;
     plus_symbol_table[plus_symbol_table_index].value = value;
+    plus_symbol_table[plus_symbol_table_index].instance = current_file_instance;
     ++plus_symbol_table_index;
 
     qsort(plus_symbol_table, plus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 3514294..0b5d01e 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -10,6 +10,7 @@ typedef struct plus_minus_sym
     const char* file;
     int line;
     int value;
+    int instance;   // a file that is included again has its own labels
 } plus_minus_symbol;
 
 typedef struct symbol_table
-- 
2.43.0


From aed2920453f68c1de39ff99271b4717e4c1ec26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:30 +0000
Subject: [PATCH 81/88] fix: a macro called in a section used and defined the
 names of the scope it was written in (C09)

---
 CMakePasm/source/expand.cc | 86 ++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 45 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 38b520c..96e93e4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -343,6 +343,30 @@ int expand_constant_node(const parse_node_ptr p)
     return p->con.value;
 }
 
+//
+// Nesting of macros that are expanded
+//
+static int macro_depth = 0;
+
+/// <summary>
+/// Gets the symbol of an identifier. It is looked up once, but a macro can be
+/// expanded in several sections and means the symbols of each of them
+/// </summary>
+/// <param name="p">The identifier.</param>
+/// <returns>symbol or null</returns>
+static symbol_table_ptr get_symbol(const parse_node_ptr p)
+{
+    const symbol_table_ptr sym = p->id.i;
+    const bool same_scope = sym == nullptr || sym->is_macro_param ||
+        (sym->scope == nullptr ? current_scope == nullptr
+            : current_scope != nullptr && stricmp(sym->scope, current_scope) == 0);
+
+    if (sym == nullptr || p->id.name[0] == '@' || (macro_depth > 0 && !same_scope))
+        p->id.i = add_symbol(p->id.name);
+
+    return p->id.i;
+}
+
 //
 // include node
 //
@@ -546,25 +570,15 @@ int expand_id_node(const parse_node_ptr p)
     if (p->id.name[0] == '-' || p->id.name[0] == '+')
         return expand_plus_minus_node(p);
 
-    symbol_table_ptr sym = p->id.i;
-    if (p->id.name[0] == '@')
-    {
-        // the scope is only known when the macro is expanded
-        if (in_macro_definition > 0)
-            return 0;
+    // the scope is only known when the macro is expanded
+    if (in_macro_definition > 0)
+        return 0;
 
-        sym = add_symbol(p->id.name);
-        p->id.i = sym;
-    }
+    const symbol_table_ptr sym = get_symbol(p);
     if (sym == nullptr)
     {
-        sym = add_symbol(p->id.name);
-        p->id.i = sym;
-        if (sym == nullptr)
-        {
-            // FatalError(error_out_of_memory);
-            return 0;
-        }
+        // FatalError(error_out_of_memory);
+        return 0;
     }
     return sym->is_initialized ? sym->value : 0;
 }
@@ -577,16 +591,11 @@ int expand_label_node(const parse_node_ptr p)
     if (p->id.name[0] == '-' || p->id.name[0] == '+')
         return expand_plus_minus_node(p);
 
-    symbol_table_ptr symbol_ptr = p->id.i;
+    const symbol_table_ptr symbol_ptr = get_symbol(p);
     if (symbol_ptr == nullptr)
     {
-        p->id.i = add_symbol(p->id.name);
-        symbol_ptr = p->id.i;
-        if (symbol_ptr == nullptr)
-        {
-            error(error_out_of_memory);
-            exit(-1);
-        }
+        error(error_out_of_memory);
+        exit(-1);
     }
     if (!symbol_ptr->is_initialized && p->number_of_ops > 0)
         expand_node(p->op[0]);
@@ -1233,18 +1242,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             {
             case type_id:
             case type_label:
-                symbol_ptr = pp->id.i;
+                symbol_ptr = get_symbol(pp);
                 if (symbol_ptr == nullptr)
                 {
-                    pp->id.i = add_symbol(pp->id.name);
-                    symbol_ptr = pp->id.i;
-                    if (symbol_ptr == nullptr)
-                    {
-                        error(error_adding_symbol);
-                        break;
-                    }
-                    symbol_ptr->is_var = true;
+                    error(error_adding_symbol);
+                    break;
                 }
+                symbol_ptr->is_var = true;
                 symbol_ptr->value = pp->type == type_label ? program_counter : 0;
                 symbol_ptr->is_initialized = true;
                 break;
@@ -1511,7 +1515,6 @@ static void set_macro_parameters(void)
 int expand_macro_expansion_node(const parse_node_ptr p)
 {
     // a macro that expands itself without end
-    static int macro_depth = 0;
     if (macro_depth >= max_macro_depth)
     {
         error(error_infinite_loop_detected);
@@ -1643,9 +1646,7 @@ int expand_operator_for_node(const parse_node_ptr p)
     const parse_node_ptr pp = p->op[0];
     if (pp->op[0]->type == type_id)
     {
-        if (pp->op[0]->id.i == nullptr)
-            pp->op[0]->id.i = add_symbol(pp->op[0]->id.name);
-        start_sym = pp->op[0]->id.i;
+        start_sym = get_symbol(pp->op[0]);
         if (start_sym == nullptr)
         {
             error(error_out_of_memory);
@@ -1654,10 +1655,7 @@ int expand_operator_for_node(const parse_node_ptr p)
     }
 
     expand_node(p->op[0]);
-    if (p->op[3]->id.i == nullptr)
-        p->op[3]->id.i = add_symbol(p->op[3]->id.name);
-
-    const symbol_table_ptr sym = p->op[3]->id.i;
+    const symbol_table_ptr sym = get_symbol(p->op[3]);
     if (sym == nullptr)
     {
         error(error_out_of_memory);
@@ -1852,9 +1850,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         return op;
     }
 
-    if (p->op[0]->id.i == nullptr || p->op[0]->id.name[0] == '@')
-        p->op[0]->id.i = add_symbol(p->op[0]->id.name);
-    symbol_table_ptr sym = p->op[0]->id.i;
+    symbol_table_ptr sym = get_symbol(p->op[0]);
     if (sym == nullptr)
     {
         error(error_out_of_memory);
@@ -2150,7 +2146,7 @@ int is_uninitialized_symbol(const parse_node_ptr p)
     {
         // a local label belongs to the expansion of the macro that uses it
         // and an operand that || or && skipped has not been looked up
-        if (p->id.name[0] == '@' || p->id.i == nullptr)
+        if (p->id.name[0] == '@' || p->id.i == nullptr || macro_depth > 0)
             expand_node(p);
 
         if (p->id.i == nullptr)
-- 
2.43.0


From e562a49849d9620c7788eaba20d655fdc410e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:49 +0000
Subject: [PATCH 82/88] fix: the listing showed a negative operand as 32 bits
 (C15)

---
 CMakePasm/source/node.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 66a7863..da4705f 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1806,7 +1806,8 @@ int generate_list_node(const parse_node_ptr p)
     current_ptr += strlen(current_ptr);
     if (bytes > 0 && (p->number_of_ops > 0))
     {
-        op = expand_node(p->op[0]);
+        // as many bytes of it as the instruction has
+        op = expand_node(p->op[0]) & (bytes == 1 && p->opcode.mode != r ? 0xFF : 0xFFFF);
         if (p->number_of_ops > 1)
         {
             expand_node(p->op[1]);
-- 
2.43.0


From ec26cf1e00d54b6acaeaf0fa66bb3c649fea6e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:12 +0000
Subject: [PATCH 83/88] fix: a macro that called itself had the local labels of
 all its expansions mixed up (C09)

---
 CMakePasm/source/expand.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 96e93e4..9c714f4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1532,13 +1532,12 @@ int expand_macro_expansion_node(const parse_node_ptr p)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
     set_macro_parameters();
     char* temp = last_label;
-    last_label = macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
+    // a macro that calls itself has labels of its own in each expansion
+    last_label = macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed++);
 
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
 
-    macro_dict_entry->times_executed++;
-
     last_label = temp;
     pop_macro_params();
     macro_depth--;
-- 
2.43.0


From 9d76a3849b7d50509e667a2dc58ccda8ba454aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:15 +0000
Subject: [PATCH 84/88] fix: a label behind a large negative number in a .str
 was one byte too low (C07)

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 9c714f4..a389ba8 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1347,7 +1347,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             else
             {
                 const int op = expand_node(pp);
-                const int hi = (op & 0xFF00) >> 8;
+                // what does not fit into a byte is written as a word
+                const int hi = op & ~0xFF;
                 if (hi != 0)
                     program_counter++;
                 program_counter++;
-- 
2.43.0


From 49c86adb5ff2a93fefaa9a01aa52634045a46492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:18 +0000
Subject: [PATCH 85/88] fix: a search path that was too long for the log file
 crashed the assembler (C17)

---
 CMakePasm/source/error.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index d41a736..9087e23 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -99,9 +99,10 @@ void warn(const int err_num)
 void error2(const int err_num, const char* parameter)
 {
     assert(err_num > error_start && err_num < error_max);
-    assert(internal_buffer != NULL);
-    snprintf(internal_buffer, max_line_len, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
-    yyerror(internal_buffer);
+    // an error can come before the line buffer is allocated
+    char message[max_line_len];
+    snprintf(message, max_line_len, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
+    yyerror(message);
 }
 
 /// <summary>
-- 
2.43.0


From 0f69a3a6a37a641bb0869a8ecd4415be53e47e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:35 +0000
Subject: [PATCH 86/88] fix: the C64 header had the address of an empty string
 in front of the first byte (C12)

---
 CMakePasm/source/genoutput.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index ee2a110..f3f7797 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -274,6 +274,10 @@ int generate_output(FILE* file, const parse_node_ptr p)
 {
     int bytes_written;
 
+    // an empty string is not output, the address of the first byte is not known yet
+    if (p != NULL && p->type == type_str && p->str.len == 0)
+        return 0;
+
     // header
     if (total_bytes_written == 0)
     {
-- 
2.43.0


From 1e5a3bce7d1ad9c8874943d6196bbcacbdd46fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:16 +0000
Subject: [PATCH 87/88] fix: a missing .load file in a macro was not named
 (C10)

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index a389ba8..6ae5413 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -467,7 +467,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     FILE* fd = open_file(file, "rb");
     if (fd == nullptr)
     {
-        error(error_cant_open_include_file);
+        error2(error_cant_open_include_file, file);
         return 0;
     }
 
-- 
2.43.0


From 34e2f0d69c7138e5f48455568c407613acf812f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:39 +0000
Subject: [PATCH 88/88] fix: a long branch to an address given with * missed it
 by two (C04)

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6ae5413..94402b8 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1018,7 +1018,8 @@ int expand_op_code_node(const parse_node_ptr p)
                     if (code2 != -1)
                     {
                         const parse_node_ptr target = p->op[index];
-                        const parse_node_ptr jmp = opcode_node(_jmp, a, 1, target);
+                        // the program counter in the target is that of the branch
+                        const parse_node_ptr jmp = opcode_node(_jmp, a, 1, constant_node(op_value, 0));
 
                         if (target == nullptr || jmp == nullptr)
                         {
-- 
2.43.0

