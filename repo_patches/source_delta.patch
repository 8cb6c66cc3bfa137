From 5cdc130c518e54218744d8798c5fdeb00d367d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:26 +0000
Subject: [PATCH 01/18] fix: report too many array subscripts instead of
 aborting

An array reference or DIM with three or more subscripts compiled, then
failed an assertion in pop_indexes (or overran a local array with
assertions off). Report a run-time error instead.
---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..59d8ae9 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1222,7 +1222,8 @@ static unsigned pop_index(VM* vm, const char* name) {
 }
 
 static void pop_indexes(VM* vm, unsigned* indexes, unsigned dimensions, const char* name) {
-  assert(dimensions <= MAX_DIMENSIONS);
+  if (dimensions > MAX_DIMENSIONS)
+    run_error(vm, "too many array dimensions: %s\n", name);
   for (unsigned i = 0; i < dimensions; i++)
     indexes[i] = pop_index(vm, name);
 }
-- 
2.43.0


From 01e66b837169b9d896fa141b5ebdf79ea2529509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:26 +0000
Subject: [PATCH 02/18] fix: reject an array dimension whose size wraps to zero

DIM A(4294967295) computed a size of 0 elements and was accepted, with
later element accesses outside the allocated array.
---
 Basic/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..a787ce2 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -15,7 +15,7 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
     if (max[i] < base)
       return false;
     unsigned size = max[i] - base + 1;
-    if (size > MAX_ELEMENTS / *elements)
+    if (size == 0 || size > MAX_ELEMENTS / *elements)
       return false;
     *elements *= size;
   }
-- 
2.43.0


From ea55a6e8b15ef087074e4d32b68eb3cd943b38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:26 +0000
Subject: [PATCH 03/18] fix: CHR$ and ASC agree on character codes 128 to 255

Converting a double above 127 to char is undefined where char is signed,
and ASC returned negative codes for such characters.
---
 Basic/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 59d8ae9..48c6deb 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1008,7 +1008,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
@@ -1023,7 +1023,7 @@ static void execute(VM* vm) {
       if (x < 0 || x > 255 || x != floor(x))
         run_error(vm, "invalid character code: %g\n", x);
       char buf[2];
-      buf[0] = (char) x;
+      buf[0] = (char) (unsigned char) x;
       buf[1] = '\0';
       push_str(vm, buf);
       break;
-- 
2.43.0


From 758e1e626bbe7ba14788814eea5be215fb89ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 04/18] fix: unwind the operand stacks and DEF call after a
 run-time error

---
 Basic/run.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 48c6deb..10f122d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -330,8 +330,18 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void end_def(VM*);
 static void report_for_in_progress(VM*);
 
+// After a run-time error, discard the operands of the expression being evaluated
+// and leave the user-defined function being called, if any.
+static void abandon_evaluation(VM* vm) {
+  vm->sp = 0;
+  clear_string_stack(vm);
+  if (vm->fn.code_state.code)
+    end_def(vm);
+}
+
 // Run the currently selected code from current PC.
 static void run(VM* vm) {
   assert(vm->code_state.code != NULL);
@@ -342,6 +352,8 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else
+    abandon_evaluation(vm);
   untrap_interrupt();
 
   if (interrupted)
-- 
2.43.0


From a57a2be7abf9f94a2b359bf95f104ccef06eb827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 05/18] fix: reject a built-in function name used as a variable

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..7242f8b 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -919,6 +919,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
           parse_error_no_token(parser, "expected %s, found %s: %s", symbol_kind(paren_kind), symbol_kind(sym->kind), name);
       }
     }
+    else if (sym->kind != SYM_VARIABLE)
+      parse_error_no_token(parser, "expected %s, found %s: %s", symbol_kind(SYM_VARIABLE), symbol_kind(sym->kind), name);
   }
   else {
     int kind = *parameters ? paren_kind : SYM_VARIABLE;
-- 
2.43.0


From 1c8d81509bc359253d6ad0e7172239e801cc1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 06/18] fix: reject an invalid dummy argument

---
 Basic/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 7242f8b..140ffad 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -616,6 +616,7 @@ static void discard_expression(PARSER* parser) {
   switch (t) {
     case TYPE_NUM: emit(parser->bcode, B_POP_NUM); break;
     case TYPE_STR: emit(parser->bcode, B_POP_STR); break;
+    default: parse_error(parser, "an expression was expected"); break;
   }
 }
 
-- 
2.43.0


From 36aa5c50b44b2dfa3d28961e9869d9702be6319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 07/18] fix: do not read past the end of the code when
 continuing

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 10f122d..38a6ced 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -387,7 +387,8 @@ bool vm_continue(VM* vm) {
   vm->code_state = vm->stopped_program;
   // If continuing from STOP, continue from PC after STOP.
   // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
+  if (vm->stopped_program.pc < vm->stopped_program.code->bcode->used &&
+      vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
     vm->code_state.pc++;
   run(vm);
   return true;
-- 
2.43.0


From b1b1c72c1eee55954e701ac40d76e67f78731d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 08/18] fix: report end of input instead of reusing the
 previous input line

---
 Basic/run.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 38a6ced..104640d 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -924,10 +924,8 @@ static void execute(VM* vm) {
       if (vm->input_prompt)
         fputs("? ", stdout);
       fflush(stdout);
-      if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
-        if (ferror(stdin))
-          run_error(vm, "error reading input\n");
-      }
+      if (fgets(vm->input, sizeof vm->input, stdin) == NULL)
+        run_error(vm, ferror(stdin) ? "error reading input\n" : "end of input\n");
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
-- 
2.43.0


From 22f51f76bd1383512c28d1f38565cafd86fbecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 09/18] fix: close a source file after loading it

---
 Basic/source.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..f4ea5da 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -185,6 +185,7 @@ SOURCE* load_source_file(const char* name) {
       exit(EXIT_FAILURE);
     append(src, num, text);
   }
+  fclose(fp);
   return src;
 }
 
-- 
2.43.0


From d79e1c7bc5c53a518458f617a05e4c2482d4fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 10/18] fix: report a write error when saving a program

---
 Basic/source.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index f4ea5da..2aec880 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -197,8 +197,12 @@ bool save_source_file(const SOURCE* src, const char* name) {
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
-  return true;
+  bool ok = !ferror(fp);
+  if (fclose(fp) != 0)
+    ok = false;
+  if (!ok)
+    fprintf(stderr, "error writing file: %s\n", name);
+  return ok;
 }
 
 static unsigned line_length(const char* s) {
-- 
2.43.0


From a1f486686cae4a7a7fcf1e4593e0c6f3512efcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 11/18] fix: invalid DATA is a syntax error, not the end of the
 interpreter

---
 Basic/lexer.c |  8 +++++---
 Basic/parse.c | 11 +++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..ce1e34a 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -312,6 +312,7 @@ int lex_next(LEX* lex) {
 }
 
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// Return NULL on error.
 const char* lex_next_data(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
@@ -327,13 +328,14 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        return NULL;
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      return NULL;
     }
   }
   else {
@@ -341,7 +343,7 @@ const char* lex_next_data(LEX* lex) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        return NULL;
       }
       lex->word[i++] = c;
       c = lex_char(lex);
diff --git a/Basic/parse.c b/Basic/parse.c
index 140ffad..0ad455d 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -212,9 +212,16 @@ static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
+}
+
+static void datum(PARSER* parser) {
+  const char* data = lex_next_data(parser->lex);
+  if (data == NULL)
+    parse_error_no_token(parser, "invalid DATA");
+  emit_str(parser->bcode, B_DATA, data);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From 0b77175ba6ab4ce2ac8b1df20a77c0810ad9ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 12/18] fix: reject program line numbers that are zero or too
 big

---
 Monitor/interactive.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..24ed654 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <math.h>
 #include <assert.h>
@@ -142,6 +143,10 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
+  if (num == 0 || num == UINT_MAX) {
+    error("Line number out of range");
+    return;
+  }
   if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
@@ -436,11 +441,13 @@ static char* skip_space(char* s) {
   return s;
 }
 
+// Read an unsigned number; the result is UINT_MAX if the number is too big.
 static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 07a6ad63d8bb21e75af10a954cc806f7ce75f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 13/18] fix: RENUM refuses duplicate numbers, changes nothing
 on refusal, and outdates compiled code

---
 Basic/run.c           |  4 ++++
 Basic/run.h           |  1 +
 Monitor/interactive.c | 12 +++++++++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 104640d..880440a 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -262,6 +262,10 @@ SOURCE* vm_stored_source(VM* vm) {
   return vm->stored_program.source;
 }
 
+void vm_source_changed(VM* vm) {
+  stored_program_changed(vm);
+}
+
 static void run(VM*);
 
 void run_program(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..ca89620 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -19,6 +19,7 @@ bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
 SOURCE* vm_stored_source(vm);
+void vm_source_changed(VM*); // after stored source is changed by its caller
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 24ed654..2a6f932 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -341,20 +341,18 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
   LINE_MAP* map = new_line_map(source_lines(source));
   unsigned new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
+      if (new_linenum <= prev_basic_line) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
       insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
       prev_basic_line = new_linenum;
       new_linenum += inc;
     }
@@ -364,6 +362,14 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+  vm_source_changed(vm);
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From 6c5d21371ef077aaab8f43949b64cc624f35901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:18 +0000
Subject: [PATCH 14/18] fix: RENUM updates every line number reference and
 nothing else

---
 Monitor/interactive.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 2a6f932..d73f5c5 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -373,8 +373,19 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-    while (tok != TOK_EOF && tok != '\n') {
-      if (takes_line_number(tok)) {
+    while (tok != TOK_EOF && tok != '\n' && tok != TOK_REM) {
+      if (tok == TOK_DATA) {
+        do {
+          tok = lex_next_data(lex) ? lex_next(lex) : '\n';
+        } while (tok == ',');
+        continue;
+      }
+      if (!takes_line_number(tok)) {
+        tok = lex_next(lex);
+        continue;
+      }
+      // a line number, or a list of them following ON
+      do {
         tok = lex_next(lex);
         if (tok == TOK_NUM) {
           double x = lex_num(lex);
@@ -395,9 +406,9 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
               }
             }
           }
+          tok = lex_next(lex);
         }
-      }
-      tok = lex_next(lex);
+      } while (tok == ',');
     }
   }
 
-- 
2.43.0


From 4fc46b9c94307fd0cb0541c87f1b686ba1f309c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 15/18] fix: more than 65535 names do not share storage

---
 Basic/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/symbol.h b/Basic/symbol.h
index 6b95877..4d00f35 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -18,7 +18,7 @@ enum symbol_kind {
 
 const char* symbol_kind(int kind);
 
-typedef unsigned short SYMID;
+typedef unsigned SYMID;
 
 typedef struct symbol {
   char* name;
-- 
2.43.0


From 960a129b48f1fd78b8a87b1a7d4afff05b2d41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 16/18] fix: refuse a loaded line number that does not fit

---
 Basic/source.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index 2aec880..cb7a2ff 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <assert.h>
 #include "source.h"
@@ -111,8 +112,12 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    if (*num > (UINT_MAX - digit) / 10)
+      source_error(src, "line number is too big\n");
+    *num = *num * 10 + digit;
+  }
   if (s == line)
     source_error(src, "line has no line number\n");
   // treat one space as pure delimiter but preserve any other indenting
-- 
2.43.0


From 7dd2fc2b416a03590c4ffd591064e5b30a18342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 17/18] fix: RENUM refuses line numbers that no statement can
 refer to

---
 Monitor/interactive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index d73f5c5..23614d5 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -347,6 +347,12 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
+      // no statement can refer to a line number beyond 16 bits
+      if (new_linenum > (U16)(-1)) {
+        error("Cannot renumber line %u to %u: line number is too big",
+              basic_line, new_linenum);
+        goto bail;
+      }
       if (new_linenum <= prev_basic_line) {
         error("Cannot renumber line %u to %u after line %u",
               basic_line, new_linenum, prev_basic_line);
-- 
2.43.0


From 9de5d82d3b361cf02101110f1430014b2621608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 18/18] fix: INPUT discards the subscripts of an item before it
 asks again

Each repetition left them on the numeric stack, so that enough invalid
answers ended the program with a stack overflow.
---
 Basic/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 880440a..e720e63 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -963,6 +963,9 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      // discard any subscripts: repeating the statement evaluates them again
+      for (unsigned k = 0; k < i->u.param.params; k++)
+        pop(vm);
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0

