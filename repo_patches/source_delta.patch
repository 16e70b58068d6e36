From 1ab1f77a97616e5b1dc466e487d6aa9943bdbd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 01/62] fix: fail the assembly when the final pass reports
 errors

Errors found while the object file was written (a .byte out of range, a branch that
does not reach, an unwritable listing) were printed but the exit status stayed 0.
---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..3710ff9 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -299,6 +299,13 @@ int assemble(void)
 
     delete_list_table();
 
+    // errors reported while writing the output fail the assembly
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From b88a2c3adc547eb3404b622b7e0884828f63a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/62] fix: report an object, symbol or list file that could
 not be written

A write that fails only when the stream is flushed (a full disk) went unnoticed.
---
 CMakePasm/source/pass.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 3710ff9..981768f 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -253,7 +253,8 @@ int assemble(void)
     // close output line_content
     if (output_file != nullptr)
     {
-        fclose(output_file);
+        if (fclose(output_file) != 0)
+            error(error_writing_output_file);
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
@@ -270,7 +271,8 @@ int assemble(void)
         // display the symbols
         dump_symbols(sym_file);
 
-        fclose(sym_file);
+        if (fclose(sym_file) != 0)
+            error(error_writing_output_file);
     }
 
 
@@ -285,7 +287,8 @@ int assemble(void)
         else
         {
             generate_list_file(list_file);
-            fclose(list_file);
+            if (fclose(list_file) != 0)
+                error(error_writing_output_file);
         }
     }
 
-- 
2.43.0


From bb8549cf4d17eae00f99ef4904a94bd73cfb6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 03/62] fix: .fill with a count of zero takes no space in any
 pass

The sizing passes counted one byte, the final pass none, so every later label was one too high.
---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..1b6f4de 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -405,7 +405,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
-- 
2.43.0


From 12bd1ab852ce6633c27b3a7996171ba0b5405c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 04/62] fix: .load of a file that cannot be opened is an error,
 not a crash

---
 CMakePasm/source/expand.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1b6f4de..13a1f11 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -420,6 +420,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
-- 
2.43.0


From b363ef45bbce6a4aa8086153cc702bc13d80c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 05/62] fix: branches reach -128..127, not -127..128

A target 128 bytes ahead was encoded as 128 bytes back.
---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 13a1f11..25b562d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -920,7 +920,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..8e68a3a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From 0386a818602fc84e9b5ab7d1dbf1c2173670d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 06/62] fix: bvc and bvs that do not reach are inverted around
 the jmp

They were left as they were, so the jmp was taken on the opposite condition.
---
 CMakePasm/source/expand.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 25b562d..f32d42f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -951,6 +951,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
-- 
2.43.0


From 8b18471dbd223cb600cfe960150a8d81db58c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 07/62] fix: an inverted branch keeps its statement intact for
 the next expansion

In a macro or loop the second expansion saw the inverted condition and, in the final
pass, the address of the first jmp instead of the target.
---
 CMakePasm/source/expand.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index f32d42f..6afcb1a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -803,6 +803,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -989,6 +990,8 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+                        p->op[index] = target;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From eb9193248fa04578dc0a27e6a96e99f4507cc739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 08/62] fix: a bra that does not reach becomes a jmp

The jmp followed a bra that skipped it.
---
 CMakePasm/source/expand.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6afcb1a..86e632a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -974,13 +974,17 @@ int expand_op_code_node(const parse_node_ptr p)
                         }
 
                         p->opcode.opcode = code2;
-                        if (final_pass)
+                        // a branch that is always taken is just the jmp
+                        if (save_instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
-- 
2.43.0


From 3af7f658e230d2bd02d3e3d56e5fc5f813ca28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 09/62] fix: a program without .org starts at its first byte

Without .org or *= instructions produced an empty object file and data an error.
---
 CMakePasm/source/expand.cc    | 9 ---------
 CMakePasm/source/genoutput.cc | 9 ++++++++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 86e632a..1e6bd3c 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -37,7 +37,6 @@ enum
     max_macro_param_name_len = 25
 };
 
-static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
 extern int origin;
@@ -683,8 +682,6 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
 //
 int expand_data_node(const parse_node_ptr p)
 {
-    origin_specified = true;
-
     expansion_type = data_bytes;
     data_size = p->data.size;
     if (p->data.size == data_string)
@@ -806,9 +803,6 @@ int expand_op_code_node(const parse_node_ptr p)
     const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
-    if (program_counter_assigned > 0)
-        origin_specified = true;
-
     p->opcode.program_counter = program_counter;
  
     switch (p->opcode.mode)
@@ -1095,7 +1089,6 @@ int expand_operator_hi_byte_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 {
-    program_counter_assigned++;
     const int op = expand_node(p->op[0]);
     origin_specified = true;
 
@@ -1111,8 +1104,6 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_org_node(const parse_node_ptr p)
 {
-    program_counter_assigned++;
-
     if (org_origin_specified)
     {
         error(error_org_specified_more_than_once);
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..dc2f152 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -261,9 +261,16 @@ int generate_output(FILE* file, const parse_node_ptr p)
     const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
+    // without an origin the program starts where its first byte is
+    if (!origin_specified)
+    {
+        origin = program_counter;
+        origin_specified = true;
+    }
+
     // header
     if (total_bytes_written == 0)
     {
-- 
2.43.0


From c31b92652c5e8677df9bef880341a0c432044a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 10/62] fix: reserved space inside a segment is never dropped
 from the object file

The check for a gap counted the c64 header and the bytes of earlier segments as part of
the current segment, so .ds between code could vanish silently.
---
 CMakePasm/source/expand.cc    | 3 +++
 CMakePasm/source/genoutput.cc | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 1e6bd3c..e844694 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -40,6 +40,7 @@ enum
 static int code_generated = 0;
 int max_macro_param = 0;
 extern int origin;
+extern int origin_bytes_written;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
@@ -1094,6 +1095,7 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
 
     program_counter = op;
     origin = op;
+    origin_bytes_written = total_bytes_written;
     return 0;
 }
 
@@ -1112,6 +1114,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     const int op = expand_node(p->op[0]);
     program_counter = op;
     origin = op;
+    origin_bytes_written = total_bytes_written;
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index dc2f152..e98d401 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -20,6 +20,9 @@ int total_bytes_written = 0;
 static int byte_delta = 0;
 int origin = 0;
 
+// number of bytes that were written before the current origin
+int origin_bytes_written = 0;
+
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
 int write_string(FILE* file, const char* str);
@@ -32,6 +35,7 @@ void generate_output_reset(void)
     total_bytes_written = 0;
     byte_delta = 0;
     origin = 0;
+    origin_bytes_written = 0;
     origin_specified = 0;
 }
 
@@ -268,6 +272,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
     if (!origin_specified)
     {
         origin = program_counter;
+        origin_bytes_written = total_bytes_written;
         origin_specified = true;
     }
 
@@ -279,9 +284,10 @@ int generate_output(FILE* file, const parse_node_ptr p)
         {
             return 0;
         }
+        origin_bytes_written = total_bytes_written;
     }
 
-    const int delta = program_counter - (origin + total_bytes_written);
+    const int delta = program_counter - (origin + total_bytes_written - origin_bytes_written);
     if (delta > 0)
     {
         error(error_value_out_of_range);
-- 
2.43.0


From 69301d8440f7874e04ecde560f459a6c1be4d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 11/62] fix: macro arguments are all evaluated before any
 parameter changes

---
 CMakePasm/source/expand.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e844694..a670ba9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -16,6 +16,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <utility>
+#include <vector>
 
 #include "expand.h"
 #include "dictionary.h"
@@ -48,6 +50,9 @@ int max_address = 0xFFFF;
 // number of symbols whose values changed
 int sym_value_changed = 0;
 
+// arguments of a macro call that have been evaluated
+static std::vector<std::pair<symbol_table_ptr, int>> macro_param_values;
+
 // nest level of expand_node();
 int expand_level = 0;
 
@@ -1120,6 +1125,19 @@ int expand_operator_org_node(const parse_node_ptr p)
     return 0;
 }
 
+/// <summary>
+/// Assign the arguments of a macro call to its parameters
+/// </summary>
+static void assign_macro_params(void)
+{
+    for (const auto& param : macro_param_values)
+    {
+        set_symbol_value(param.first, param.second);
+        param.first->is_initialized = true;
+    }
+    macro_param_values.clear();
+}
+
 /// <summary>
 /// Operator Expression List
 /// </summary>
@@ -1204,8 +1222,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             symbol_ptr = add_symbol(sym_name);
             if (symbol_ptr != nullptr)
             {
-                set_symbol_value(symbol_ptr, expand_node(pp));
-                symbol_ptr->is_initialized = true;
+                // the remaining arguments still see the old values
+                macro_param_values.push_back({ symbol_ptr, expand_node(pp) });
             }
             else
             {
@@ -1407,6 +1425,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
+    assign_macro_params();
 
     char* temp = last_label;
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-- 
2.43.0


From 044fb143d5825a7ff28a10cf88eabbe335296072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 12/62] fix: labels and operands of macros are bound when they
 are expanded

---
 CMakePasm/source/expand.cc |  4 ++++
 CMakePasm/source/node.cc   | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index a670ba9..6d90565 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -859,6 +859,10 @@ int expand_op_code_node(const parse_node_ptr p)
         break;
     }
 
+    // bind the symbols of the operand
+    for (int index = 0; index < p->number_of_ops; index++)
+        expand_node(p->op[index]);
+
     if (op_bytes > 0 && !has_uninitialized_symbol(p))
     {
         int out_of_range = 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 8e68a3a..fde261a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -193,6 +193,10 @@ parse_node_ptr id_node(const char* name)
 /// <returns>parseNodePtr.</returns>
 parse_node_ptr label_node(char* name)
 {
+    // the labels of a macro are bound each time it is expanded
+    if (in_macro_definition > 0)
+        return id_node_common(name, type_label);
+
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
     else if (last_label != nullptr && name[0] == '@')
@@ -310,6 +314,27 @@ parse_node_ptr operator_node(const int opr, const int number_of_ops, ...)
     return p;
 }
 
+/// <summary>
+/// Determines if the value of p is known without expanding a symbol
+/// </summary>
+/// <param name="p">The parseNode.</param>
+static bool is_constant_expression(const parse_node_ptr p)
+{
+    if (p == nullptr)
+        return false;
+    if (p->type == type_con)
+        return !p->con.is_program_counter;
+    if (p->type != type_opr || p->number_of_ops == 0)
+        return false;
+
+    for (int index = 0; index < p->number_of_ops; index++)
+    {
+        if (!is_constant_expression(p->op[index]))
+            return false;
+    }
+    return true;
+}
+
 /// <summary>
 /// Opcodes
 /// </summary>
@@ -351,7 +376,9 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         for (index = 0; index < number_of_ops; index++)
         {
             p->op[index] = va_arg(ap, parse_node_ptr);
-            val = expand_node(p->op[index]);
+            // symbols are bound when the instruction is expanded
+            if (is_constant_expression(p->op[index]))
+                val = expand_node(p->op[index]);
         }
         va_end(ap);
     }
@@ -423,12 +450,6 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         }
     }
 
-    for (index = 0; index < number_of_ops; index++)
-    {
-        if (p->op[index])
-            expand_node(p->op[index]);
-    }
-
     p->opcode.opcode = code;
     if (code < 0)
     {
-- 
2.43.0


From 9cfb74e703ac47633c41f42995d65702e50289ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 13/62] fix: an undefined local label in front of the first
 label is an error

---
 CMakePasm/source/sym.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..790be00 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -208,11 +208,7 @@ symbol_table_ptr add_symbol(char* name)
     }
 
     if (sym.name[0] == '@')
-    {
         sym.is_local = true;
-        sym.is_initialized = true;
-        sym.value = 0;
-    }
 
     current_scope = temp_section;
     tmp_ptr = static_cast<symbol_table_ptr>(dict_insert(&symbol_dictionary, sym.fullname, &sym));
-- 
2.43.0


From 15899583d741258157bbc2289ee96e46f4ed1621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 14/62] fix: a symbol may be out of range until every symbol it
 depends on is known

---
 CMakePasm/source/expand.cc |  2 +-
 CMakePasm/source/sym.cc    | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6d90565..8fcce48 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1757,7 +1757,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
-    if (!sym->is_initialized || sym->value != op)
+    if (!sym->is_initialized || sym->value != op || (op & ~0xFFFF) != 0)
     {
         if (!sym->scope && current_scope)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 790be00..726edaf 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -272,13 +272,14 @@ symbol_table_ptr look_up_symbol(const char* name)
 
 symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
 {
+    if (sym != NULL && (value & ~0xFFFF) != 0 && !sym->is_var && final_pass)
+    {
+        // the symbols in an expression may be unknown until the final pass
+        error(error_value_out_of_range);
+        return NULL;
+    }
     if ((sym != NULL) && (sym->value != value))
     {
-        if (((value & ~0xFFFF) != 0) && !sym->is_var)
-        {
-            error(error_value_out_of_range);
-            return NULL;
-        }
         sym->value = value;
         if (!sym->is_macro_param && !sym->is_var)
         {
-- 
2.43.0


From 167fbda8248b48eb75e6a3e2bdadd9cd74bf3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 15/62] fix: .ds and .fill take their operands as they are in
 the final pass

---
 CMakePasm/source/expand.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8fcce48..2f80343 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -358,12 +358,13 @@ int expand_operator_fill_node(const parse_node_ptr p)
     const int byt = expand_node(p->op[0]);
     int count = expand_node(p->op[1]);
 
-    if (byt < 0 || byt > 255)
+    // the symbols in an expression may be unknown until the final pass
+    if (final_pass && (byt < 0 || byt > 255))
     {
         error(error_value_out_of_range);
         exit(-1);
     }
-    if (count < 0)
+    if (final_pass && count < 0)
     {
         error(error_value_out_of_range);
         exit(-1);
@@ -410,7 +411,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count;
+        program_counter += count > 0 ? count : 0;
     }
     return byt;
 }
@@ -1661,7 +1662,7 @@ int expand_operator_ds_node(const parse_node_ptr p)
 {
     const int op = expand_node(p->op[0]);
     int count = op;
-    if (count < 0)
+    if (final_pass && count < 0)
     {
         error(error_value_out_of_range);
         exit(-1);
-- 
2.43.0


From 436f2f9f93af36059b6fd17484ce61c985e14c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 16/62] fix: an operand that does not fit the instruction is an
 error

---
 CMakePasm/source/expand.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 2f80343..a669b99 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -799,6 +799,23 @@ int get_op_byte_count(const parse_node_ptr p)
     return byte_count;
 }
 
+//
+// Operand of an instruction has the same limits as the data of .byte and .word
+//
+static void check_operand_range(const parse_node_ptr p)
+{
+    const int bytes = get_op_code_byte_count(p);
+    if (bytes == 0 || p->number_of_ops == 0 || p->opcode.mode == r)
+        return;
+
+    const int op = expand_node(p->op[0]);
+    const int max_value = bytes > 1 ? 0xFFFF : 0xFF;
+    if (op > max_value || -op >= max_value)
+    {
+        error(error_value_out_of_range);
+    }
+}
+
 //
 // Opcode
 //
@@ -905,7 +922,6 @@ int expand_op_code_node(const parse_node_ptr p)
                     break;
 
                 default:
-                    error(error_value_out_of_range);
                     break;
                 }
                 code2 = get_op_code(p->opcode.instruction, mode_check);
@@ -914,10 +930,6 @@ int expand_op_code_node(const parse_node_ptr p)
                     p->opcode.mode = mode_check;
                     p->opcode.opcode = code2;
                 }
-                else
-                {
-                    error(error_value_out_of_range);
-                }
                 break;
             }
 
@@ -992,6 +1004,7 @@ int expand_op_code_node(const parse_node_ptr p)
                         }
                         if (final_pass)
                         {
+                            check_operand_range(jmp);
                             jmp->opcode.program_counter = program_counter;
                             generate_list_node(jmp);
                             generate_output(output_file, jmp);
@@ -1024,6 +1037,7 @@ int expand_op_code_node(const parse_node_ptr p)
     
     if (final_pass)
     {
+        check_operand_range(p);
         generate_list_node(p);
         generate_output(output_file, p);
     }
-- 
2.43.0


From 1d93d220c177b227439870adb625e9a98f5df708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/62] fix: zero page indirect operands are one byte

---
 CMakePasm/source/expand.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index a669b99..933556e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -810,7 +810,8 @@ static void check_operand_range(const parse_node_ptr p)
 
     const int op = expand_node(p->op[0]);
     const int max_value = bytes > 1 ? 0xFFFF : 0xFF;
-    if (op > max_value || -op >= max_value)
+    const bool is_zero_page_only = p->opcode.mode == ind && p->opcode.instruction != _jmp;
+    if (op > max_value || -op >= max_value || is_zero_page_only)
     {
         error(error_value_out_of_range);
     }
@@ -1032,6 +1033,11 @@ int expand_op_code_node(const parse_node_ptr p)
                 p->opcode.mode = mode_check;
                 p->opcode.opcode = code2;
             }
+            else if (mode_check == zpi && p->opcode.instruction != _jmp)
+            {
+                // only jmp has an absolute address in its (indirect) operand
+                p->opcode.mode = zpi;
+            }
         }
     }
     
-- 
2.43.0


From 57fc7a96e9c3ee4464731652b2ca82058c905207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 18/62] fix: parameters of a macro called inside a section are
 found again

---
 CMakePasm/source/sym.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 726edaf..5e2774b 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -153,6 +153,9 @@ symbol_table_ptr add_symbol(char* name)
         name++;
     }
     sym.is_macro_param = name[0] == '\\';
+    // macro parameters do not belong to a section
+    if (sym.is_macro_param)
+        current_scope = NULL;
     sym.is_local = name[0] == '@';
     if (sym.is_local && last_label != NULL)
     {
-- 
2.43.0


From cc277fe744ff5a0c22e3684d1e109e314ce2c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 19/62] fix: a dictionary that grows keeps its values and their
 order

---
 CMakePasm/source/dictionary.cc | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..f0ed8cf 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,17 +122,31 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        // move the elements, callers keep pointers to the values. The
+        // most recently inserted element stays in front of its bucket
+        element_ptr next;
+        for (element_ptr element = d->table[index]; element != 0; element = next)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            next = element->next;
+            element->next = NULL;
+
+            const unsigned long h = (d2->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+
+            element_ptr* link = &d2->table[h];
+            if (*link)
+                d2->collisions++;
+            while (*link)
+                link = &(*link)->next;
+
+            *link = element;
+            d2->number_elements++;
         }
     }
 
-    free(d->table);
-    free(d);
+    FREE(d->table);
+    FREE(d);
 
     return d2;
 }
@@ -204,7 +218,6 @@ void* dict_insert(dictionary_ptr* dd, void* key, void* value)
     if (d->number_elements >= static_cast<long>((double)d->size * MAX_LOAD_FACTOR))
     {
         *dd = grow(d);
-        return dict_search(*dd, key);
     }
 
     return e->value;
-- 
2.43.0


From a5bb62defc0eec12f79e777f77ce872ea2b7d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 20/62] fix: a skipped .ifdef inside another conditional ends
 at its own .endif

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..9efbb56 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -207,8 +207,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                int last_if = * (int*) ifdef_stack->pop(ifdef_stack->instance);
+                                if (last_if == 0)
                                 {
                                     if (final_pass)
                                     {
-- 
2.43.0


From 7ac1795466ea54c76bd22ec8d02729cd84912c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 21/62] fix: a stray .else is a syntax error, not a crash

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 9efbb56..fa12277 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -237,6 +237,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From 07f0a7a15a33dabe4748826c94c01dd1037db9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 22/62] fix: -d takes decimal values of any length

---
 CMakePasm/source/parseargs.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..966c519 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -311,16 +311,13 @@ int parse_arguments(const int argc, char* argv[])
             {
                 sym_val = (int)strtol(val + 1, NULL, 2);
             }
-            else if (strlen(val) > 2)
+            else if (strlen(val) > 2 && val[0] == '0' && val[1] == 'x')
             {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
+                sym_val = (int)strtol(val + 2, NULL, 16);
+            }
+            else if (strlen(val) > 2 && val[0] == '0' && val[1] == 'b')
+            {
+                sym_val = (int)strtol(val + 2, NULL, 2);
             }
             else
             {
-- 
2.43.0


From 1ff799f475cc9857b6236ba007e0f6bafc02c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 23/62] fix: -nowarn and .warn off turn warnings off

---
 CMakePasm/source/error.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..1944edb 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -86,6 +86,9 @@ void error(const int err_num)
 void warn(const int err_num)
 {
     assert(err_num > error_start && err_num < error_max);
+    if (ignore_warnings)
+        return;
+
     yymessage(errors[err_num]);
     warning_count++;
 }
-- 
2.43.0


From 5a799de919811d8044701f1a4f0a26a0fddbfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 24/62] fix: the state set by directives starts over in every
 pass

---
 CMakePasm/source/pass.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 981768f..d4f66b2 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,6 +14,7 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
@@ -161,6 +162,11 @@ void parse_pass(void)
 
 int assemble(void)
 {
+    // directives change these from the line they are on, in every pass
+    const cpu start_cpu_mode = cpu_mode;
+    const int start_allow_illegal_op_codes = allow_illegal_op_codes;
+    const bool start_ignore_warnings = ignore_warnings;
+
     error_count = 0;
 
     delete_list_table();
@@ -197,6 +203,10 @@ int assemble(void)
 
         parse_pass();
 
+        cpu_mode = start_cpu_mode;
+        allow_illegal_op_codes = start_allow_illegal_op_codes;
+        ignore_warnings = start_ignore_warnings;
+
         const int unresolved_count = unresolved_symbol_count();
         if (error_count == 0 && sym_value_changed == 0 && unresolved_count == 0)
             clean_pass_count++;
-- 
2.43.0


From d68e4cf62927f2683d27c4e5bc96ba7cba846114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 25/62] fix: a register loop up to 255 includes 255

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 933556e..d0276f2 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -643,7 +643,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     expand_node(loop_next);
 
     // check to see if we need a compare
-    if (end != 0)
+    // counting up to 255 ends when the register wraps to zero
+    if (end != 0 && (increment_flag < 0 || end < 255))
     {
         parse_node_ptr cmp_node;
         if (increment_flag > 0 && end < 255)
-- 
2.43.0


From 5f330c68a4f346bec56697ab3c972a81d8e24ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 26/62] fix: anonymous labels are looked up in their own file
 and inside the table

---
 CMakePasm/source/sym.cc | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 5e2774b..aa6965e 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -327,9 +327,9 @@ int find_minus_symbol_definition(const char* file, const int line)
 
 int find_minus_symbol(const int depth, const char* file, const int line)
 {
-    if (minus_symbol_table_index <= 0) return -1;
-    int found_index = -1;
-    for (int index = 0; index < minus_symbol_table_index; ++index)
+    // count back over the labels of this file only
+    int found = 0;
+    for (int index = minus_symbol_table_index - 1; index >= 0; --index)
     {
         if (minus_symbol_table[index].file == NULL)
             continue;
@@ -337,40 +337,26 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (stricmp(file, minus_symbol_table[index].file) != 0)
             continue;
 
-        if (minus_symbol_table[index].line <= line)
-        {
-            found_index = index;
-        }
-    }
-    if (found_index >= 0)
-    {
-        found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
-            return found_index;
+        if (minus_symbol_table[index].line <= line && ++found == depth)
+            return index;
     }
     return -1;
 }
 
 int find_plus_symbol(const int depth, const char* file, const int line)
 {
-    if (plus_symbol_table_index <= 0) return -1;
-    int found_index = -1;
+    // count forward over the labels of this file only
+    int found = 0;
     for (int index = 0; index < plus_symbol_table_index; ++index)
     {
+        if (plus_symbol_table[index].file == NULL)
+            continue;
+
         if (stricmp(file, plus_symbol_table[index].file) != 0)
             continue;
 
-        if (plus_symbol_table[index].line > line)
-        {
-            found_index = index;
-            break;
-        }
-    }
-    if (found_index >= 0)
-    {
-        found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
-            return found_index;
+        if (plus_symbol_table[index].line > line && ++found == depth)
+            return index;
     }
     return -1;
 }
-- 
2.43.0


From f955e3b0d9d3d4aa3bc12def68adcc99d6b652a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 27/62] fix: an undefined anonymous label is an error

---
 CMakePasm/source/error.cc  | 1 +
 CMakePasm/source/error.h   | 1 +
 CMakePasm/source/expand.cc | 7 +++++++
 3 files changed, 9 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 1944edb..0b2d92b 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -67,6 +67,7 @@ const char* errors[] =
     "Error opening output file.",
     "Error creating list node.",
     "Error path name too long.",
+    "Undefined symbol.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index b0c92f0..db1601f 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -59,5 +59,6 @@ enum
     error_opening_output_file,
     error_creating_list_node,
     error_path_name_too_long,
+    error_undefined_symbol,
     error_max
 };
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index d0276f2..749ca8f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -502,6 +502,13 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else
+    {
+        // no such label in this direction
+        sym->value = 0;
+        if (final_pass)
+            error(error_undefined_symbol);
+    }
     p->id.i = sym;
 
     return sym->value;
-- 
2.43.0


From af74e359a26bbac198dd5b806a6d298b5c594969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 28/62] fix: the listing shows two byte .str values

---
 CMakePasm/source/node.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index fde261a..0280bae 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1702,11 +1702,11 @@ int generate_list_node(const parse_node_ptr p)
             hi = 0;
         }
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && data_size == 1)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
@@ -1725,7 +1725,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (data_size > 1 || (data_size == 0 && hi != 0))
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From fb77ea7df96685a35dd80b65d2444106016be9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 29/62] fix: include files are closed at their end

---
 CMakePasm/source/pasm.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index fa12277..d47d790 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -434,6 +434,9 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 yylineno++;
                                 if (final_pass) generate_list_node(NULL);
                                 
+                                // the input files are closed by their owner
+                                if (file_stack->instance->index >= 0) fclose(yyin);
+
                                 yypop_buffer_state();
                                 if (file_stack->instance->index >= 0)
                                 {
-- 
2.43.0


From 88b7afa9c380241ccfafdf1dc35ded74c0cd322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 30/62] fix: a divisor may be unknown until the final pass

---
 CMakePasm/source/expand.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 749ca8f..67550d7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1873,7 +1873,9 @@ int expand_operator_divide_node(const parse_node_ptr p)
 {
     if (expand_node(p->op[1]) == 0)
     {
-        error(error_divide_by_zero);
+        // the symbols in an expression may be unknown until the final pass
+        if (final_pass)
+            error(error_divide_by_zero);
         return 0;
     }
     return expand_node(p->op[0]) / expand_node(p->op[1]);
-- 
2.43.0


From 742d88f904ffbd3f4d2ec5c97191dcd866111c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 31/62] fix: the bounds of a register loop may be unknown until
 the final pass

---
 CMakePasm/source/expand.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 67550d7..4bda49e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -592,9 +592,11 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     const int start = expand_node(p->op[0]);
 
     // range check
+    // the symbols in an expression may be unknown until the final pass
     if (start < 0 || start > 255)
     {
-        error(error_value_out_of_range);
+        if (final_pass)
+            error(error_value_out_of_range);
         return 0;
     }
 
@@ -604,7 +606,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     // range check
     if (end < 0 || end > 255)
     {
-        error(error_value_out_of_range);
+        if (final_pass)
+            error(error_value_out_of_range);
         return 0;
     }
 
-- 
2.43.0


From 6a723d8aeed57fb415edfeae37aba58a850ee4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 32/62] fix: .str counts the bytes it writes

---
 CMakePasm/source/expand.cc | 3 +--
 CMakePasm/source/node.cc   | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4bda49e..4b3abda 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1324,8 +1324,7 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             else
             {
                 const int op = expand_node(pp);
-                const int hi = (op & 0xFF00) >> 8;
-                if (hi != 0)
+                if ((op & ~0xFF) != 0)
                     program_counter++;
                 program_counter++;
             }
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 0280bae..7f53f34 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1725,7 +1725,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1 || (data_size == 0 && hi != 0))
+        if (data_size > 1 || (data_size == 0 && (op & ~0xFF) != 0))
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
@@ -1739,7 +1739,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
         sprintf(current_ptr, "$%02X", lo);
         current_ptr += strlen(current_ptr);
-        if (data_size > 1 || (data_size == 0 && hi != 0))
+        if (data_size > 1 || (data_size == 0 && (op & ~0xFF) != 0))
         {
             sprintf(current_ptr, ", $%02X", hi);
             // ReSharper disable once CppAssignedValueIsNeverUsed
-- 
2.43.0


From b5405368793a12edc45df5271d34f29d55d7f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 33/62] fix: a section can refer to a global symbol in front of
 its definition

---
 CMakePasm/source/sym.cc | 28 ++++++++++++++++++++++++----
 CMakePasm/source/sym.h  |  1 +
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index aa6965e..eccfcf2 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -145,7 +145,8 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (strstr(name, "."))
+    const bool is_qualified = strstr(name, ".") != NULL;
+    if (is_qualified)
         current_scope = NULL;
 
     if (name[0] == '.')
@@ -169,10 +170,13 @@ symbol_table_ptr add_symbol(char* name)
     symbol_table_ptr tmp_ptr = look_up_symbol(name);
     if (tmp_ptr != NULL)
     {
+        if (is_qualified)
+            tmp_ptr->is_qualified = true;
         current_scope = temp_section;
         return tmp_ptr;
     }
 
+    sym.is_qualified = is_qualified;
     sym.name = (char*)STRDUP(name);
     if (sym.name == NULL)
     {
@@ -228,6 +232,20 @@ symbol_table_ptr look_up_macro_param(const int param_number)
     return static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, macro_param_name));
 }
 
+/// <summary>
+/// A section that refers to a global symbol in front of its definition
+/// leaves a symbol of its own behind that never gets a value
+/// </summary>
+static bool is_defined_globally_only(const symbol_table_ptr sym)
+{
+    if (sym->is_initialized || sym->is_local || sym->is_var || sym->is_qualified || sym->scope == NULL)
+        return false;
+
+    // ReSharper disable once CppLocalVariableMayBeConst
+    auto global_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, sym->name));
+    return global_ptr != NULL && global_ptr->is_initialized;
+}
+
 /// <summary>
 /// Get SymbolTable for symbol.
 /// </summary>
@@ -259,7 +277,7 @@ symbol_table_ptr look_up_symbol(const char* name)
         // ReSharper disable once CppLocalVariableMayBeConst
         auto tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, temp_name));
         FREE(temp_name);
-        if (tmp_ptr)
+        if (tmp_ptr && !is_defined_globally_only(tmp_ptr))
         {
             tmp_ptr->times_accessed++;
             return tmp_ptr;
@@ -655,7 +673,8 @@ void dump_symbols(FILE* file)
             const auto sym = static_cast<symbol_table_ptr>(element->value);
             if (sym->is_var == false && sym->is_macro_param == false && 
                 sym->is_macro_name == false && sym->is_plus_minus == false && sym->is_local == false &&
-                pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false)
+                pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false &&
+                !is_defined_globally_only(sym))
             {
                 current_entry->name = static_cast<char*>(element->key);
                 current_entry->value = sym->value;
@@ -785,7 +804,8 @@ int unresolved_symbol_count(void)
             const auto sym = static_cast<symbol_table_ptr>(elem->value);
 
             if (sym->is_initialized == false && sym->is_macro_name == false &&
-                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
+                sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false &&
+                !is_defined_globally_only(sym))
             {
                 count++;
             }
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..3c841ea 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -22,6 +22,7 @@ typedef struct symbol_table
     bool is_label;
     bool is_local;
     bool is_plus_minus;
+    bool is_qualified;
     bool is_var;
     char* scope;
     char* name;
-- 
2.43.0


From 4ff4476fd1506a45155c18a70b026eb149115e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 34/62] fix: the listing shows the pad byte of a .word string
 on its own row

---
 CMakePasm/source/node.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 7f53f34..61e3f95 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1643,6 +1643,15 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            // the last row is full, the pad byte is on a row of its own
+            if (col == 0)
+            {
+                string_start = str;
+                current_ptr = current_buffer;
+                op = (program_counter + bytes) & 0xFFFF;
+                sprintf(current_ptr, "$%02X%02X:", ((op) >> 8), op & 0xFF);
+                current_ptr += strlen(current_ptr);
+            }
             col++;
             sprintf(current_ptr, " $%02X", *str & 0xFF);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From a7a7c7374859e70caeb78de8d1917723f8c91cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 35/62] fix: the listing shows unprintable characters of a
 string as numbers

---
 CMakePasm/source/node.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 61e3f95..1929b3f 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1675,9 +1675,9 @@ int generate_list_node(const parse_node_ptr p)
                     sprintf(current_ptr, ", ");
                     current_ptr += strlen(current_ptr);
                 }
-                if (len == col - 1 && pad)
+                if ((len == col - 1 && pad) || !isprint(string_start[len]))
                 {
-                    sprintf(current_ptr, "$%02X", string_start[len]);
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
                 }
                 else
                 {
-- 
2.43.0


From ebe173eb632b5eb541287cba9d3b3a9e92e9eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 36/62] fix: an anonymous label may be the first token of a
 file or follow an include

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index d47d790..388fb47 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -339,7 +339,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From b1b48557c4eea545d72ba551505ab907709d9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 37/62] fix: comments, strings and names in skipped lines do
 not end a conditional

---
 CMakePasm/source/pasm.l | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 388fb47..e33df9b 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -217,6 +217,11 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>{STRVALUE}          { /* ignore ifdef false */ }
+<IF_DEF>{SYMB}              { /* ignore ifdef false */ }
+<IF_DEF>";"[^\n]*           { /* ignore ifdef false */ }
+<IF_DEF>"//"[^\n]*          { /* ignore ifdef false */ }
+<IF_DEF>"/*"([^*]|"*"+[^*/])*"*"+"/"   { /* ignore ifdef false */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From a81626accd854f38187d0f8b5b7f1fbcae35fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:01 +0000
Subject: [PATCH 38/62] fix: a variable can start with the value of a symbol

---
 CMakePasm/source/expand.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4b3abda..a8a9e8a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1199,6 +1199,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
         switch (expansion_type)  // NOLINT(hicpp-multiway-paths-covered)
         {
         case symbol:
+            // what follows a variable is its initial value, also when that is a symbol
+            if (symbol_ptr != nullptr)
+            {
+                set_symbol_value(symbol_ptr, expand_node(pp));
+                symbol_ptr = nullptr;
+                break;
+            }
             switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
             {
             case type_id:
@@ -1220,17 +1227,8 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                 break;
 
             default:
-                if (symbol_ptr != nullptr)
-                {
-                    set_symbol_value(symbol_ptr, expand_node(pp));
-                    symbol_ptr = nullptr;
-                }
-                else
-                {
-                    error(error_initializing_variable);
-                    return 0;
-                }
-                break;
+                error(error_initializing_variable);
+                return 0;
             }
             break;
 
-- 
2.43.0


From 178bc4cbaa78a12c2c084d17d6f70006c431c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 39/62] fix: an undefined name in a .byte or .word list is an
 error

---
 CMakePasm/source/expand.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index a8a9e8a..cf1fc35 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1267,6 +1267,9 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             break;
 
         case data_bytes:
+            // a symbol without a value has to be reported here too
+            if (pp->type == type_id)
+                expand_node(pp);
             if (!has_uninitialized_symbol(pp))
             {
                 if (final_pass)
-- 
2.43.0


From 26df44316398de3b5e7a78b69be054937925cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 40/62] fix: leaving a macro restores old parameter values
 without a range check

---
 CMakePasm/source/sym.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index eccfcf2..727273c 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -503,7 +503,7 @@ void pop_macro_params(void)
         const symbol_table_ptr tmp_ptr = look_up_macro_param(index);
         if (tmp_ptr != NULL)
         {
-            set_symbol_value(tmp_ptr, macro_stack_param_entry_ptr->values[index]);
+            tmp_ptr->value = macro_stack_param_entry_ptr->values[index];
         }
         else
         {
-- 
2.43.0


From bec36a06e55962b069e27eefb3e59b8bd416673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 41/62] fix: a data element whose unneeded operand is unknown
 is not dropped

---
 CMakePasm/source/expand.cc | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index cf1fc35..d047d91 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1270,29 +1270,27 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             // a symbol without a value has to be reported here too
             if (pp->type == type_id)
                 expand_node(pp);
-            if (!has_uninitialized_symbol(pp))
+            // an operand that does not have to be evaluated may be unknown
+            if (final_pass)
             {
-                if (final_pass)
+                switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
                 {
-                    switch (pp->type)  // NOLINT(clang-diagnostic-switch-enum)
-                    {
-                    case type_con:
-                    case type_id:
-                    case type_label:
-                    case type_opr:
-                    case type_str:
-                        break;
+                case type_con:
+                case type_id:
+                case type_label:
+                case type_opr:
+                case type_str:
+                    break;
 
-                    case type_macro_id:
-                    case type_macro_ex:
-                    case type_data:
-                    default:
-                        error(error_value_out_of_range);
-                        return 0;
-                    }
-                    generate_list_node(pp);
-                    generate_output(output_file, pp);
+                case type_macro_id:
+                case type_macro_ex:
+                case type_data:
+                default:
+                    error(error_value_out_of_range);
+                    return 0;
                 }
+                generate_list_node(pp);
+                generate_output(output_file, pp);
             }
             if (pp->type == type_str)
             {
-- 
2.43.0


From e2c192fd5007d10a42f5f4730fadb766ba80b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:47 +0000
Subject: [PATCH 42/62] fix: .fill as the first output of a file with a load
 address keeps its length

---
 CMakePasm/source/expand.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index d047d91..8d0dbff 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -384,12 +384,11 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node2 = data_node(data_word, constant_node(byt << 8 | byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node2);
-                if (bytes == 0)
-                    bytes = 2;
+                // a header that is written with the first bytes does not count
+                generate_output(output_file, generate_fill_node2);
                 generate_list_node(generate_fill_node2);
-                program_counter += bytes;
-                count -= bytes;
+                program_counter += 2;
+                count -= 2;
 
             }
             else if (count == 1)
@@ -399,12 +398,10 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node1 = data_node(data_byte, constant_node(byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node1);
-                if (bytes == 0)
-                    bytes = 1;
+                generate_output(output_file, generate_fill_node1);
                 generate_list_node(generate_fill_node1);
-                program_counter += bytes;
-                count -= bytes;
+                program_counter += 1;
+                count -= 1;
 
             }
         }
-- 
2.43.0


From 3d8c4135ac8109b41082d45395b7c01e5872fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 43/62] fix: .for counts in its own variable inside of a
 section

---
 CMakePasm/source/expand.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8d0dbff..78c2556 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1584,7 +1584,11 @@ int expand_operator_for_node(const parse_node_ptr p)
         }
     }
 
-    expand_node(p->op[0]);
+    // the loop counts in its variable, also when a section uses a variable from outside
+    if (start_sym && start_sym->is_var)
+        set_symbol_value(start_sym, expand_node(pp->op[1]));
+    else
+        expand_node(p->op[0]);
     if (p->op[3]->id.i == nullptr)
         p->op[3]->id.i = add_symbol(p->op[3]->id.name);
 
-- 
2.43.0


From 73c48aa8771bd390593d421f001f31263dec36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:27 +0000
Subject: [PATCH 44/62] fix: a reference to an anonymous label leaves the local
 labels alone

---
 CMakePasm/source/sym.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 727273c..8a4be08 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -75,11 +75,6 @@ int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, cons
 
 symbol_table_ptr add_plus_minus_sym(char* name)
 {
-    const auto blank = "";
-
-    if (last_label == nullptr)
-        last_label = const_cast<char*>(&blank[0]);
-
     symbol_table sym = { 0 };  // NOLINT(clang-diagnostic-missing-field-initializers)
     char* temp_section = current_scope;
 
@@ -590,7 +585,7 @@ char* format_local_plus_minus_sym(char* name, char* label)
 
     sprintf(number_buffer, "%d", yylineno);
 
-    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
+    const int new_len = strlen(label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
 
     char* new_name = static_cast<char*>(MALLOC(new_len));
     if (new_name)
-- 
2.43.0


From dbe4aa79a1833718742e18148363aee18b7842b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 45/62] fix: a branch takes an address and no other operand

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 1929b3f..347c38c 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -360,7 +360,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if ((mode == a || mode == ind) && get_op_code(op, r) != -1)
     {
         mode = r;
     }
-- 
2.43.0


From d0dc7d5ced1fce7dc72ea4d13a00f292485b9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 46/62] fix: the jmp of a far branch goes to the target of the
 branch

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 78c2556..53efae4 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1011,6 +1011,10 @@ int expand_op_code_node(const parse_node_ptr p)
                             }
                             program_counter += get_op_code_byte_count(p) + 1;
                         }
+                        // the target is where the branch goes, wherever the jmp is
+                        if (expand_node(target) != op_value)
+                            jmp->op[0] = constant_node(op_value, 0);
+
                         if (final_pass)
                         {
                             check_operand_range(jmp);
-- 
2.43.0


From 7c9859fcd5e3d2ab0862213858d1c6e89937f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 47/62] fix: a line end after a lone CR is one line end

---
 CMakePasm/eolconvert/eolconvert.cc | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..4404ed9 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -233,30 +233,19 @@ int replace_eol(const fs::path& path, const fs::path& out_path)
         stringstream ss;
         size_t index = 0;
         auto sz = in_buf.size();
-        uint8_t last_eol = 0;
-        auto count = 0;
         while (index < sz)
         {
 
             if (auto ch = in_buf[index++]; !is_eol(ch))
             {
                 ss << ch;
-                count = 0;
             }
             else
             {
-                if (ch != last_eol)
-                {
-                    count++;
-                    last_eol = ch;
-                    if (count == 1)
-                        ss << '\n';
-                    else if (count == 2)
-                        count = 0;
-                    continue;
-                }
                 ss << '\n';
-                count = 0;
+                // the other character of the same end of line
+                if (index < sz && is_eol(in_buf[index]) && in_buf[index] != ch)
+                    index++;
             }
         }
 
-- 
2.43.0


From 54041dfb725112ee6caba4577aa6c7b6d7d0c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:35 +0000
Subject: [PATCH 48/62] fix: .end inside of a .repeat comes to an end

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 53efae4..4ff65b9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1539,7 +1539,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
             error(error_infinite_loop_detected);
             return 0;
         }
-    } while (expand_node(p->op[1]) == 0);
+    } while (!end_expansion && expand_node(p->op[1]) == 0);
     return 0;
 }
 
-- 
2.43.0


From 6e0e8bac42a747c4614d16c0a80371706bd521d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 49/62] fix: a line that ends in CR LF is one line

The listing showed the rows of such files beside the line before.
---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index e33df9b..e003c9d 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -154,7 +154,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 "RMB"[0-7]                  { OP_65C02_REL(rmb) }
 "SMB"[0-7]                  { OP_65C02_REL(smb) }
 
-[\xD\xA]|[\xA]|[\xD]        { P_TOK("EOL") SV_TOK return EOL; }
+[\xD]?[\xA]|[\xD]           { P_TOK("EOL") SV_TOK *last_token = '\n'; return EOL; }
 ".IFDEF"[ \t]+{SYMB}        {
                                 P_TOK("IF_DEF")
                                 SV_TOK
-- 
2.43.0


From 74c70b1f212c2d818f0e0006ba7d767f3464336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 50/62] fix: a local label belongs to its label, written with
 or without a colon

---
 CMakePasm/source/node.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 347c38c..93b008f 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -198,7 +198,13 @@ parse_node_ptr label_node(char* name)
         return id_node_common(name, type_label);
 
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
+    {
+        // the colon is not a part of the name
+        const size_t len = strlen(name);
+        if (len > 1 && name[len - 1] == ':')
+            name[len - 1] = 0;
         last_label = name;
+    }
     else if (last_label != nullptr && name[0] == '@')
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
-- 
2.43.0


From 4d4239437577c61026c2357a905720ad6affa442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:13 +0000
Subject: [PATCH 51/62] fix: the names of a macro body are looked up for each
 call

---
 CMakePasm/source/expand.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4ff65b9..2f876d6 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1417,6 +1417,27 @@ void reset_macro_dict(void)
     }
 }
 
+/// <summary>
+/// The names of a macro body mean what they mean where the macro is called,
+/// so what an earlier call has bound them to does not count.
+/// </summary>
+/// <param name="p">The parse_node_ptr p.</param>
+static void unbind_symbols(const parse_node_ptr p)
+{
+    if (p == nullptr)
+        return;
+
+    if (p->type == type_id || p->type == type_label)
+        p->id.i = nullptr;
+    else if (p->type == type_data)
+        unbind_symbols(static_cast<parse_node_ptr>(p->data.data));
+    else if (p->type == type_macro_ex)
+        unbind_symbols(static_cast<parse_node_ptr>(p->macro.macro_params));
+
+    for (int index = 0; index < p->number_of_ops; index++)
+        unbind_symbols(p->op[index]);
+}
+
 /// <summary>
 /// Operator Macro Symbol
 /// </summary>
@@ -1438,6 +1459,7 @@ int expand_macro_id_node(const parse_node_ptr p)
         last_label = temp;
         return 0;
     }
+    unbind_symbols(static_cast<parse_node_ptr>(sym->macro_node));
     expand_node(static_cast<parse_node_ptr>(sym->macro_node));
 
     last_label = temp;
@@ -1466,6 +1488,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
     last_label = (char*) STRDUP(internal_buffer);
 
+    unbind_symbols(static_cast<parse_node_ptr>(p->macro.macro));
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
 
-- 
2.43.0


From f5c313a23555f5179d344576fbcd8225798eb943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:08 +0000
Subject: [PATCH 52/62] fix: a branch to a local label at address 0 is checked
 like any other

---
 CMakePasm/source/expand.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 2f876d6..15f7792 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -898,13 +898,7 @@ int expand_op_code_node(const parse_node_ptr p)
         for (int index = 0; index < p->number_of_ops; index++)
         {
             const parse_node_ptr pp = p->op[index];
-            int op_value = expand_node(pp);
-
-            // fix for local labels
-            const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
-            if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
-                && (ch == '@' || ch == '-' || ch =='+') )
-                op_value = program_counter;
+            const int op_value = expand_node(pp);
 
             // ReSharper disable once CppRedundantParentheses
             large_op = large_op | ((op_value & ~0xFF) != 0);
-- 
2.43.0


From c159813ff55b744755be1e46004863fe5f3df625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 53/62] fix: a loop may fill the memory up to its last byte

---
 CMakePasm/source/expand.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 15f7792..0c9e826 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -44,7 +44,7 @@ int max_macro_param = 0;
 extern int origin;
 extern int origin_bytes_written;
 
-// for 6502 and 65C02
+// for 6502 and 65C02, the program counter is one more behind the last byte
 int max_address = 0xFFFF;
 
 // number of symbols whose values changed
@@ -1531,7 +1531,7 @@ int expand_operator_while_node(const parse_node_ptr p)
     {
         expand_node(p->op[1]);
 
-        if (program_counter > max_address)
+        if (program_counter > max_address + 1)
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1551,7 +1551,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
     {
         expand_node(p->op[0]);
 
-        if (program_counter > max_address)
+        if (program_counter > max_address + 1)
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1570,7 +1570,7 @@ int expand_operator_do_node(const parse_node_ptr p)
     do
     {
         expand_node(p->op[0]);
-        if (program_counter > max_address)
+        if (program_counter > max_address + 1)
         {
             error(error_infinite_loop_detected);
             return 0;
@@ -1638,7 +1638,7 @@ int expand_operator_for_node(const parse_node_ptr p)
 
             expand_node(p->op[2]);
 
-            if (program_counter > max_address)
+            if (program_counter > max_address + 1)
             {
                 error(error_infinite_loop_detected);
                 return 0;
-- 
2.43.0


From 750b2889d3ef8ffa92d80bc083f600275c4a9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 54/62] fix: the listing shows lines of any length

---
 CMakePasm/source/file.cc    | 14 +++++++++++---
 CMakePasm/source/genlist.cc | 14 ++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..052f958 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -11,6 +11,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 
 #include "error.h"
 #include "flex.h"
@@ -131,8 +132,15 @@ file_line_node* read_file_lines(const char* file_name)
     }
     while (!feof(file))
     {
-        internal_buffer[0] = 0;
-        if (fgets(internal_buffer, max_line_len, file))
+        // a line may be of any length
+        std::string content;
+        for (int ch = fgetc(file); ch != EOF; ch = fgetc(file))
+        {
+            content += static_cast<char>(ch);
+            if (ch == '\n')
+                break;
+        }
+        if (!content.empty())
         {
             if (file_node == NULL)
             {
@@ -153,7 +161,7 @@ file_line_node* read_file_lines(const char* file_name)
             }
             memset(file_node, 0, sizeof(file_line_node));
             // ReSharper disable once CppDeprecatedEntity
-            file_node->line_content = (char*)STRDUP(internal_buffer);
+            file_node->line_content = (char*)STRDUP(content.c_str());
             file_node->line_number = line++;
         }
     }
diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..74f6205 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -88,7 +88,6 @@ void generate_list_file(FILE* list_file)
     fprintf(list_file, "; Processing %s\n", current_file_name);
     for (int line = 1; line < list_head->line; ++line)
     {
-        internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
         if (list_node->list_directive)
@@ -98,8 +97,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -142,12 +140,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -155,16 +152,13 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-            internal_buffer[0] = 0;
-            sprintf(internal_buffer, source_indent_format, "","");
-            fputs(internal_buffer, list_file);
+            fprintf(list_file, source_indent_format, "","");
             if (source_list->displayed == 0)
             {
                 if (state)
-- 
2.43.0


From 385628eaf7b53dec729d783fd71d50b9b3a62c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:25 +0000
Subject: [PATCH 55/62] fix: a macro may have a name of any length

---
 CMakePasm/source/expand.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0c9e826..5657b3b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -16,6 +16,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -1440,10 +1441,11 @@ static void unbind_symbols(const parse_node_ptr p)
 int expand_macro_id_node(const parse_node_ptr p)
 {
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
+    char number_buffer[20] = { 0 };
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    sprintf(number_buffer, "::%8.8X", macro_dict_entry->times_executed);
+    last_label = const_cast<char*>(STRDUP((std::string(p->id.name) + number_buffer).c_str()));
 
     expand_id_node(p);
 
@@ -1469,6 +1471,7 @@ int expand_macro_id_node(const parse_node_ptr p)
 int expand_macro_expansion_node(const parse_node_ptr p)
 {
     macro_dict_entry* macro_dict_entry = create_macro_entry(p->macro.name);
+    char number_buffer[20] = { 0 };
     push_macro_params();
 
     expansion_type = macro_parameter;
@@ -1479,8 +1482,8 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     assign_macro_params();
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    sprintf(number_buffer, "::%.4X", macro_dict_entry->times_executed);
+    last_label = (char*) STRDUP((std::string(p->macro.name) + number_buffer).c_str());
 
     unbind_symbols(static_cast<parse_node_ptr>(p->macro.macro));
     if (p->macro.macro != nullptr)
-- 
2.43.0


From c4576936add6dcbdea34135b7c5a2a64933a78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:58 +0000
Subject: [PATCH 56/62] fix: .load of a directory is an error (it loaded bytes
 until memory ran out)

---
 CMakePasm/source/expand.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5657b3b..ec9698e 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -427,6 +427,15 @@ int expand_operator_load_node(const parse_node_ptr p)
         return 0;
     }
 
+    // a directory can be opened but not read
+    fgetc(fd);
+    if (ferror(fd))
+    {
+        fclose(fd);
+        error(error_cant_open_include_file);
+        return 0;
+    }
+
     fseek(fd, 0, SEEK_END);
     const size_t len = ftell(fd);
     fseek(fd, 0, SEEK_SET);
-- 
2.43.0


From d0689418e4302cd14b8a0209edb20845d0c1405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:47 +0000
Subject: [PATCH 57/62] fix: messages show the right lines next to lines of the
 source longer than 2047 characters

---
 CMakePasm/source/error.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 0b2d92b..b5004e9 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -114,6 +114,16 @@ void error2(const int err_num, const char* parameter)
     yyerror(internal_buffer);
 }
 
+/// <summary>
+/// Skips the rest of a line of any length.
+/// </summary>
+/// <param name="file">The file.</param>
+static void skip_line(FILE* file)
+{
+    for (int ch = fgetc(file); ch != EOF && ch != '\n'; ch = fgetc(file))
+        ;
+}
+
 /// <summary>
 /// message routine.
 /// </summary>
@@ -129,7 +139,7 @@ void yymessage(const char* s)
         const long current_position = ftell(yyin);
         fseek(yyin, 0, SEEK_SET);
         for (current_line = 1; current_line < yylineno - 2; current_line++)
-            fgets(internal_buffer, max_line_len, yyin);
+            skip_line(yyin);
 
         for (; current_line < yylineno + 3; current_line++)
         {
@@ -139,6 +149,12 @@ void yymessage(const char* s)
                 fgets(internal_buffer, max_line_len, yyin);
                 fprintf(console_error, "%-5d  ", current_line);
                 fputs(internal_buffer, console_error);
+                // the rest of a long line
+                if (*internal_buffer != 0 && internal_buffer[strlen(internal_buffer) - 1] != '\n' && !feof(yyin))
+                {
+                    fputs("\n", console_error);
+                    skip_line(yyin);
+                }
             }
         }
         fputs("\n", console_error);
-- 
2.43.0


From 0ca72fd61da20cfee3b86c625bb8fcb31cff1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:38 +0000
Subject: [PATCH 58/62] fix: the listing shows negative operands as the
 instruction holds them

---
 CMakePasm/source/node.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 93b008f..519033b 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1826,6 +1826,8 @@ int generate_list_node(const parse_node_ptr p)
         {
             expand_node(p->op[1]);
         }
+        // a negative operand is shown as it is written
+        op &= bytes > 1 || p->opcode.mode == r ? 0xFFFF : 0xFF;
         // ReSharper disable once CppDefaultCaseNotHandledInSwitchStatement
         switch (p->opcode.mode)
         {
-- 
2.43.0


From 7552ee1d62b043deda345ed7c2559e5c7712d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:38 +0000
Subject: [PATCH 59/62] fix: the listing shows jmp (address,x) as it is

---
 CMakePasm/source/node.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 519033b..a4e5af3 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1867,8 +1867,8 @@ int generate_list_node(const parse_node_ptr p)
             sprintf(current_ptr, "$%04X ", op);
             break;
 
-        case aix:    /* absolute indirect x  */  // NOLINT(bugprone-branch-clone)
-            sprintf(current_ptr, "$%04X,x ", op);
+        case aix:    /* absolute indirect x  */
+            sprintf(current_ptr, "($%04X,x) ", op);
             break;
 
         case ax:     /* absolute x           */
-- 
2.43.0


From b56c62c44279a4cb1e32746e6e17f6037e106312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:09 +0000
Subject: [PATCH 60/62] fix: a file name too long for a message does not print
 the buffer of an earlier one

---
 CMakePasm/source/error.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index b5004e9..4795c3c 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -110,6 +110,7 @@ void error2(const int err_num, const char* parameter)
     else
     {
         error(err_num);
+        return;
     }
     yyerror(internal_buffer);
 }
-- 
2.43.0


From 9ec122df41e29224c3e475536669fd5fc8726f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:09 +0000
Subject: [PATCH 61/62] fix: the listing tells files apart whose names differ
 in case

---
 CMakePasm/source/genlist.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 74f6205..a8d8642 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -27,7 +27,7 @@ file_line_node* get_file_line(char* file, const int line)
     file_entry* current_file_entry = source_file_list;
     file_entry* prev = nullptr;
 
-    for (; current_file_entry != nullptr && stricmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
+    for (; current_file_entry != nullptr && strcmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
         prev = current_file_entry;
 
     if (!current_file_entry)
@@ -47,7 +47,7 @@ file_line_node* get_file_line(char* file, const int line)
         if (source_file_list == nullptr)
             source_file_list = current_file_entry;
 
-        if (stricmp(current_file_entry->filename, file) == 0)
+        if (strcmp(current_file_entry->filename, file) == 0)
         {
             file_line_node* line_entry = current_file_entry->lines;
             for (; line_entry && line_entry->line_number < line; line_entry = line_entry->next)
@@ -106,7 +106,7 @@ void generate_list_file(FILE* list_file)
     // loop through all list  nodes
     for (; list_node; list_node = list_node->next)
     {
-        if (current_file_name == nullptr || stricmp(current_file_name, list_node->filename))
+        if (current_file_name == nullptr || strcmp(current_file_name, list_node->filename) != 0)
         {
 
 
@@ -129,7 +129,7 @@ void generate_list_file(FILE* list_file)
 
         const int start_line = list_node->line;
         int end_line = start_line;
-        if (list_node->next && stricmp(list_node->filename, list_node->next->filename) == 0 &&
+        if (list_node->next && strcmp(list_node->filename, list_node->next->filename) == 0 &&
             list_node->next->line > list_node->line)
             end_line = list_node->next->line - 1;
 
-- 
2.43.0


From ba0c9d42da84e3632ca32f8455cfee9e3d634d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:09 +0000
Subject: [PATCH 62/62] fix: every reading of a file has anonymous labels of
 its own

---
 CMakePasm/source/file.cc    |  2 ++
 CMakePasm/source/globals.cc |  6 ++++++
 CMakePasm/source/pasm.h     |  3 +++
 CMakePasm/source/pasm.l     |  1 +
 CMakePasm/source/pass.cc    |  2 ++
 CMakePasm/source/sym.cc     | 10 ++++++----
 CMakePasm/source/sym.h      |  1 +
 7 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 052f958..e5daf6c 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -197,10 +197,12 @@ int open_include_file(char* file)
     file_line_stack_entry file_line;
     file_line.file = current_file_name;
     file_line.line = yylineno;
+    file_line.number = current_file_number;
     
     file_stack->push(file_stack->instance, &file_line);
 
     current_file_name = file;
+    current_file_number = ++opened_file_count;
 
     yyin = open_file(file, "r");
     yylineno = 0;
diff --git a/CMakePasm/source/globals.cc b/CMakePasm/source/globals.cc
index 346eeff..149cb71 100644
--- a/CMakePasm/source/globals.cc
+++ b/CMakePasm/source/globals.cc
@@ -42,6 +42,10 @@ int pass = 0;
 int program_counter = 0;
 int data_size = 0;
 int input_file_count = 0;
+
+// a file may be read more than once in a pass
+int opened_file_count = 0;
+int current_file_number = 0;
 extern int plus_symbol_table_index;
 extern int minus_symbol_table_index;
 extern int plus_symbol_table_size;
@@ -93,4 +97,6 @@ void init_globals()
     program_counter = 0;
     data_size = 0;
     input_file_count = 0;
+    opened_file_count = 0;
+    current_file_number = 0;
 }
\ No newline at end of file
diff --git a/CMakePasm/source/pasm.h b/CMakePasm/source/pasm.h
index 4481399..3b0fa3c 100644
--- a/CMakePasm/source/pasm.h
+++ b/CMakePasm/source/pasm.h
@@ -18,6 +18,7 @@ typedef struct file_line_stack_entry
 {
     char* file;
     int line;
+    int number;
 } file_line_stack_entry;
 
 extern void reset_lex(void);
@@ -37,6 +38,8 @@ extern int in_macro_definition;
 extern int pass;
 extern int program_counter;
 extern int input_file_count;
+extern int opened_file_count;
+extern int current_file_number;
 extern int program_origin_default;
 
 extern stack_ptr file_stack;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index e003c9d..4fff30c 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -449,6 +449,7 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                     const file_line_stack_entry* file_line = (file_line_stack_entry*) file_stack->pop(file_stack->instance);
                                     current_file_name = file_line->file;
                                     yylineno = file_line->line;
+                                    current_file_number = file_line->number;
 
                                     if (final_pass) generate_list_node(NULL);
                                 }
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index d4f66b2..91d5366 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -93,6 +93,7 @@ void reset_lex(void)
         ifdef_stack->clear(ifdef_stack->instance);
     }
     in_macro_definition = 0;
+    opened_file_count = 0;
 }
 
 
@@ -110,6 +111,7 @@ void parse_pass(void)
         yylineno = 0;
 
         current_file_name = input_files[in_file_index];
+        current_file_number = ++opened_file_count;
         yyin = open_file(current_file_name, "r");
         if (yyin == nullptr)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 8a4be08..231b85b 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -57,7 +57,7 @@ static int plus_minus_sym_cmp_function(const void* a, const void* b);
 
 int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b)
 {
-    const int result = stricmp(a->file, b->file);
+    const int result = a->file_number - b->file_number;
     if (result != 0) return result;
     return a->line - b->line;
 }
@@ -69,7 +69,7 @@ int plus_minus_sym_cmp_function(const void* a, const void* b)
 
 int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, const int line)
 {
-    const plus_minus_sym b = { file, line, 0 };
+    const plus_minus_sym b = { file, line, 0, current_file_number };
     return compare_plus_minus_sym(a, &b);
 }
 
@@ -347,7 +347,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (minus_symbol_table[index].file == NULL)
             continue;
 
-        if (stricmp(file, minus_symbol_table[index].file) != 0)
+        if (minus_symbol_table[index].file_number != current_file_number)
             continue;
 
         if (minus_symbol_table[index].line <= line && ++found == depth)
@@ -365,7 +365,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
         if (plus_symbol_table[index].file == NULL)
             continue;
 
-        if (stricmp(file, plus_symbol_table[index].file) != 0)
+        if (plus_symbol_table[index].file_number != current_file_number)
             continue;
 
         if (plus_symbol_table[index].line > line && ++found == depth)
@@ -402,6 +402,7 @@ void add_minus_symbol(const char* file, const int line, const int value)
     minus_symbol_table[minus_symbol_table_index].file = (char*)STRDUP(file);
     minus_symbol_table[minus_symbol_table_index].line = line;
     minus_symbol_table[minus_symbol_table_index].value = value;
+    minus_symbol_table[minus_symbol_table_index].file_number = current_file_number;
     ++minus_symbol_table_index;
 
     qsort(minus_symbol_table, minus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
@@ -430,6 +431,7 @@ void add_plus_symbol(const char* file, const int line, const int value)
     plus_symbol_table[plus_symbol_table_index].file = (char*)STRDUP(file);
     plus_symbol_table[plus_symbol_table_index].line = line;
     plus_symbol_table[plus_symbol_table_index].value = value;
+    plus_symbol_table[plus_symbol_table_index].file_number = current_file_number;
     ++plus_symbol_table_index;
 
     qsort(plus_symbol_table, plus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 3c841ea..43fa448 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -10,6 +10,7 @@ typedef struct plus_minus_sym
     const char* file;
     int line;
     int value;
+    int file_number;
 } plus_minus_symbol;
 
 typedef struct symbol_table
-- 
2.43.0

