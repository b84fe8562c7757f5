From 090658feb127a6b7d8fc9bcf5adb4057695ca451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 01/52] fix: terminate on a comment that is still open at end
 of file

---
 lex1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex1.c b/lex1.c
index 0042c2b..60b00d8 100644
--- a/lex1.c
+++ b/lex1.c
@@ -409,6 +409,10 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        fprintf(stderr, "Unclosed comment at end of file\n");
+        had_bad_tokens = 1;
+        goto done;
       }
       
     } else {
-- 
2.43.0


From b6aed228fb9e014dee9dba549a0191096c12789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:55 +0000
Subject: [PATCH 02/52] fix: report the right position for words that follow
 digits or a colon

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 60b00d8..bcac60c 100644
--- a/lex1.c
+++ b/lex1.c
@@ -424,11 +424,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From 43a79062ac3440a3a448cb7939c091beee229ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 03/52] fix: accept an empty lo'u le'u quotation instead of
 aborting

---
 lex2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index 133f5f4..710aec5 100644
--- a/lex2.c
+++ b/lex2.c
@@ -418,7 +418,7 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      x->data.lohu.text = (start == term) ? new_string("") : build_string_from_nodes(start, end);
 
       term->next->prev = x;
       x->next = term->next;
-- 
2.43.0


From 1da8b13d92c5c0cc362c14b95fa8a3264f0836a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 04/52] fix: allow a lo'u ... le'u quotation as a component of
 a zei compound instead of aborting

---
 lex2.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 710aec5..07a2837 100644
--- a/lex2.c
+++ b/lex2.c
@@ -223,6 +223,10 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         len += 3 + strlen(y->data.zo.text);
         break;
      
+      case N_LOhU:
+        len += 7 + strlen(y->data.lohu.text);
+        break;
+     
       case N_ZEI:
         /* Not particularly efficient, the strings get built again later for now! */
         len += strlen(y->data.zei.sep_with_zei);
@@ -234,7 +238,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -277,6 +280,12 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, y->data.zo.text);
         break;
 
+      case N_LOhU:
+        strcat(result, "lo'u+\"");
+        strcat(result, y->data.lohu.text);
+        strcat(result, "\"");
+        break;
+
       case N_ZEI:
         strcat(result, y->data.zei.sep_with_zei);
         break;
@@ -287,7 +296,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
-- 
2.43.0


From ccdb4ca125a079e9d21d704146d65096471de680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:18 +0000
Subject: [PATCH 05/52] fix: report bu at the start of the text instead of
 aborting

---
 lex2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex2.c b/lex2.c
index 07a2837..f79c4fc 100644
--- a/lex2.c
+++ b/lex2.c
@@ -593,6 +593,11 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) {
+        fprintf(stderr, "Cannot have 'bu' at the start of the text\n");
+        had_bad_tokens = 1; /* flag back to main */
+        continue;
+      }
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From b5cf8c95995cc00901c59e4382c746c97b2eba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:37 +0000
Subject: [PATCH 06/52] fix: show a la'o quotation as la'o, not as zoi, in the
 bracketed output

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 661d06a..d4c90e4 100644
--- a/tree.c
+++ b/tree.c
@@ -434,7 +434,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 
       case N_ZOI:
         SPACE_B4_TEXT;
-        printf("zoi %s %s %s", x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
+        printf("%s %s %s %s", x->data.zoi.form, x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
         break;
         
       case N_ZO:
-- 
2.43.0


From 57c4a83d637d0df7a24915ae7d45ca66b94b1046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 07/52] fix: do not crash on a text that ends in an incomplete
 tense

---
 categ.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/categ.c b/categ.c
index 4377bd1..40a045e 100644
--- a/categ.c
+++ b/categ.c
@@ -379,9 +379,13 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
     }
     if (y == head) {
       /* Run to end of text */
-      insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
-      insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-      next_tok = last_ok_token->next->next; /* marker->next */
+      if (last_ok_token) {
+        insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
+        insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
+        next_tok = last_ok_token->next->next; /* marker->next */
+      } else {
+        next_tok = x->next; /* Default case : failure */
+      }
     }
 
 next_outer_loop:
-- 
2.43.0


From abb0eca9557271aba7ae5744e29ac070faac5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 08/52] fix: do not index the bad cmene table with the failure
 state

---
 bccheck.c | 7 +++++++
 lex1.c    | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/bccheck.c b/bccheck.c
index 5e82a9b..03dac6c 100644
--- a/bccheck.c
+++ b/bccheck.c
@@ -90,6 +90,13 @@ int is_bad_cmene(char *word, int *split, char **ladoi, char **tail)/*{{{*/
     int mc = mapchar[(unsigned int) *p & 0xff];
     if (mc == TCM) continue;
     ns = bad_cmene_next_state(cs, mc);
+    if (ns < 0) {
+      /* The letters can't occur in this sequence in any word (e.g. 'yy') */
+      if (split) *split = 0;
+      if (ladoi) *ladoi = 0;
+      if (tail) *tail = 0;
+      return 1;
+    }
     res = bad_cmene_exitval[ns];
     /* Deal with early exit conditions */
     if (res == BC_CMENE_BAD_NOSPLIT || res == BC_CMENE_BAD_SPLIT) {
diff --git a/lex1.c b/lex1.c
index bcac60c..114469c 100644
--- a/lex1.c
+++ b/lex1.c
@@ -184,7 +184,11 @@ process_cmene(char *buf, int start_line, int start_column,
 {
   TreeNode *tok;
 
-  if (is_bad)  {
+  if (is_bad && !ladoi) {
+    fprintf(stderr, "Unrecognizable word '%s' at line %d column %d\n",
+            buf, start_line, start_column);
+    had_bad_tokens = 1;
+  } else if (is_bad) {
     char prefix[65536], labuf[8];
     char *p, *q;
     int len1, len2;
-- 
2.43.0


From a12d3b1dde3ccdcf72a9fb2a449525d772e58e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 09/52] fix: recognise Cy cmavo written together with a two
 vowel cmavo (uicy)

---
 morf_nfa.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/morf_nfa.in b/morf_nfa.in
index 5d7bf23..121769a 100644
--- a/morf_nfa.in
+++ b/morf_nfa.in
@@ -485,7 +485,7 @@ BLOCK CMAVOSEQ
 
     STATE in2
             -> exit_prefixable
-        CNR -> main
+        CNR -> main, cy1
 
     STATE main
         V -> m2, mv
-- 
2.43.0


From 46d2346b3b1dcdd3a9f9bf7e30a1db0dee015eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:46 +0000
Subject: [PATCH 10/52] fix: recognise names with y before a forbidden triple
 after a consonant (rnytcas)

---
 morf_nfa.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/morf_nfa.in b/morf_nfa.in
index 121769a..1c7646d 100644
--- a/morf_nfa.in
+++ b/morf_nfa.in
@@ -920,7 +920,7 @@ BLOCK CMENE
         VY             -> v
         YY             -> y
         LCP|HS|H|CN|BT -> c
-        CP ; BT        -> c # deal with nytc, nyts, nydj, nydz
+        CP|H ; BT      -> c # deal with nytc, nyts, nydj, nydz
     
     STATE exit
         = TAG_CMENE
-- 
2.43.0


From cfb7d0f285986dbf97aa503e5ebe747f989e6612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:23 +0000
Subject: [PATCH 11/52] fix: indent the nai of a negated CAI like the other
 lines of the tree

---
 tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree.c b/tree.c
index d4c90e4..726f437 100644
--- a/tree.c
+++ b/tree.c
@@ -173,6 +173,7 @@ print_tree(TreeNode *x, int indent)
             }
           } else if (cmavo_table[code].selmao == CAI) {
             if (prop_neg_indicator(x, NO)) {
+              show_indent(indent);
               printf("CMAVO : nai [NAI]\n");
             }
           }
-- 
2.43.0


From 9025f256b19af7e1e1c9b77d834914a4024cd98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 12/52] fix: show the ke'e elided at the end of a gi'e ke bridi
 tail

---
 rpc2x.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc2x.y b/rpc2x.y
index 1a04cd3..031c235 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -669,7 +669,7 @@ bridi_tail : bridi_tail_1
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          tail_terms
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          /* ET VAU */
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ tail_terms
-           | bridi_tail_1 gihek_stag_ke KE          bridi_tail               /* ET VAU */
+           | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ /* ET VAU */
            ;
 
 gihek_stag_ke : PRIVATE_GIHEK_KE gihek stag
-- 
2.43.0


From c40f5cc033ebd12b142dc5fd0d11a74941a40b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 13/52] fix: jvocuhadju refuses components longer than a gismu
 instead of overrunning its buffer

---
 jvocuhadju.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jvocuhadju.c b/jvocuhadju.c
index c86c399..82619f5 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -717,6 +717,10 @@ static void makelujvo(char **tanru) {
 
   i=0;
   while (*tanru) {
+    if (strlen(*tanru) >= sizeof(t[i])) {
+      fprintf(stderr, "Cannot use component [%s] in forming lujvo.\n", *tanru);
+      exit(1);
+    }
     strcpy(t[i], *tanru);
     for (j=0; ; j++) {
       if (!t[i][j]) break;
-- 
2.43.0


From 1a2590d03c4ffe5212d211c60680f0197c809426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 14/52] fix: -se does not claim that the ku of na ku can be
 left out

---
 elide.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/elide.c b/elide.c
index bb8ca0d..30ef65a 100644
--- a/elide.c
+++ b/elide.c
@@ -75,6 +75,9 @@ struct {
 static int prev_token_was_pa_etc = 0;
 static int cur_token_was_pa_etc = 0;
 
+/* Flag indicating that the last token read was NA */
+static int last_token_was_na = 0;
+
 /*++++++++++++++++++++++++++++++++++++++
   Called to set a flag bit
   ++++++++++++++++++++++++++++++++++++++*/
@@ -674,6 +677,14 @@ yylex(void)
       tokbuf.flags[old_n].subscript_before = 0;
 
       is_elidable = token_is_elidable(tokbuf.buf[old_n].yylval, &is_boiveho);
+
+      /* The 'ku' of 'na ku' is a mandatory part of the construct, not a
+         terminator. */
+      if (last_token_was_na && (tokbuf.buf[old_n].value == KU)) {
+        is_elidable = 0;
+      }
+      last_token_was_na = (tokbuf.buf[old_n].value == NA);
+
       tokbuf.flags[old_n].boiveho = is_boiveho;
       tokbuf.flags[old_n].tok_is_number_marker = token_is_number_marker(tokbuf.buf[old_n].yylval);
     } while (is_elidable);
-- 
2.43.0


From a0c58a3be1b3d84129da1eb33bbefab27a9403d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 15/52] fix: -se takes a number after an omittable terminator
 into account (fe'u pa boi re mai)

---
 elide.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/elide.c b/elide.c
index 30ef65a..fa94f63 100644
--- a/elide.c
+++ b/elide.c
@@ -621,6 +621,27 @@ elide_trace_reduce(int yystate, int yyn)
 /*++++++++++++++++++++++++++++++++++++++
   ++++++++++++++++++++++++++++++++++++++*/
 
+/*++++++++++++++++++++++++++++++++++++++
+  Return 1 if the token is a PA or a letter cmavo, i.e. if a following number
+  could merge with it.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static int
+token_is_pa_etc(int value)
+{
+  switch (value) {
+    case PA:
+    case BU:
+    case BY:
+    case LAU:
+    case TEI:
+    case FOI:
+      return 1;
+    default:
+      return 0;
+  }
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Provide the yylex function
   ++++++++++++++++++++++++++++++++++++++*/
@@ -661,6 +682,12 @@ yylex(void)
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
     ++tokbuf.rp;
+
+    if (tokbuf.rp == tokbuf.n) {
+      /* Non-elidable at end of tokbuf */
+      cur_token_was_pa_etc = token_is_pa_etc(result);
+    }
+
     return result;
     
   } else {
@@ -702,21 +729,8 @@ yylex(void)
     ++tokbuf.rp;
 
     if (tokbuf.rp == tokbuf.n) {
-      /* Single token, or non-elidable at end of tokbuf */
-      switch (result) {
-        case PA:
-        case BU:
-        case BY:
-        case LAU:
-        case TEI:
-        case FOI:
-          cur_token_was_pa_etc = 1;
-          break;
-        default:
-          cur_token_was_pa_etc = 0;
-          break;
-
-      }
+      /* Single token */
+      cur_token_was_pa_etc = token_is_pa_etc(result);
     }
     
     return result;
-- 
2.43.0


From 332b753eb85570d7d1e976db823e028272e4478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 16/52] fix: long zoi delimiters overran their buffer

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 114469c..bf271ae 100644
--- a/lex1.c
+++ b/lex1.c
@@ -20,7 +20,7 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+static char zoi_delim[65536]; /* as long as any word */
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
-- 
2.43.0


From 02d6e09a3ac866ca45652bd84e8f4b36c32173cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 17/52] fix: digits, colons, brackets and > in zoi and la'o
 quotations are kept as they are

---
 lex1.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index bf271ae..ca3d67c 100644
--- a/lex1.c
+++ b/lex1.c
@@ -421,7 +421,13 @@ parse_file(FILE *f)
       
     } else {
       
-      if (c>='0' && c<='9') {
+      *p = 0;
+      if (zoi_data && c != EOF && strchr("0123456789:(>", c) &&
+          strcmp(buffer, zoi_delim)) {
+        /* These have no special meaning in quoted non-Lojban text. */
+        SET_START;
+        *p++ = c;
+      } else if (c>='0' && c<='9') {
         static char *numbers[] = {"no", "pa", "re", "ci", "vo",
                                   "mu", "xa", "ze", "bi", "so"};
         CLOSE_TOKEN;
-- 
2.43.0


From 37a14be997260e37bec45d77df64ac96fce08880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 18/52] fix: HTML output escapes the characters & < > in quoted
 text and does not loop on them in translations

---
 htmlout.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/htmlout.c b/htmlout.c
index 5340420..d200a8a 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -233,14 +233,17 @@ make_htmlsafe(char *s)
       case '&':
         strcpy(q, "&amp;");
         q += 5;
+        p++;
         break;
       case '<':
         strcpy(q, "&lt;");
         q += 4;
+        p++;
         break;
       case '>':
         strcpy(q, "&gt;");
         q += 4;
+        p++;
         break;
       default:
         *q++ = *p++;
@@ -273,7 +276,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("<B>%s</B>", text);
+  printf("<B>%s</B>", make_htmlsafe(text));
 
   state = ST_TEXT;
 }
-- 
2.43.0


From cff11b397c793368d55c28386103d659a587e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 19/52] fix: LaTeX output escapes the special characters of
 quoted text, and ^ in translations

---
 latex.c    | 58 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 latex.h    |  1 +
 latexblk.c |  2 +-
 3 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/latex.c b/latex.c
index 815e344..89f4aaf 100644
--- a/latex.c
+++ b/latex.c
@@ -267,6 +267,11 @@ make_texsafe(char *s)
   while (*p) {
     switch (*p) {
       case '^':
+        /* On its own, \^ would put an accent onto the next character */
+        strcpy(q, "\\^{}");
+        q += 4;
+        p++;
+        break;
       case '&':
 #if 0
       case '\\':
@@ -296,6 +301,57 @@ make_texsafe(char *s)
   return buf;
 }
 
+/*++++++++++++++++++++++++++++++
+  Make the Lojban text safe for setting with TeX.  In contrast to the
+  translations it never contains escape sequences, but a quotation (zoi, la'o)
+  may contain any character.
+  ++++++++++++++++++++++++++++++*/
+
+char *
+make_texsafe_lojban(char *s)
+{
+  static char buf[65536];
+  char *p, *q;
+  q = buf;
+  for (p = s; *p; p++) {
+    switch (*p) {
+      case '\\':
+        strcpy(q, "\\textbackslash{}");
+        q += 16;
+        break;
+      case '^':
+      case '~':
+        *q++ = '\\';
+        *q++ = *p;
+        *q++ = '{';
+        *q++ = '}';
+        break;
+      case '&':
+      case '$':
+      case '{':
+      case '}':
+      case '%':
+      case '_':
+      case '#':
+        *q++ = '\\';
+        *q++ = *p;
+        break;
+      case '<':
+      case '>':
+        *q++ = '$';
+        *q++ = *p;
+        *q++ = '$';
+        break;
+      default:
+        *q++ = *p;
+        break;
+    }
+  }
+  *q = 0;
+
+  return buf;
+}
+
 
 /*++++++++++++++++++++++++++++++++++++++
   
@@ -317,7 +373,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", text);
+  printf("\\mbox{\\textbf{%s}\\/}", make_texsafe_lojban(text));
 
   state = ST_TEXT;
 }
diff --git a/latex.h b/latex.h
index 9eba44f..c41917a 100644
--- a/latex.h
+++ b/latex.h
@@ -13,6 +13,7 @@
 
 extern void latex_write_epilog(void);
 extern char *make_texsafe(char *s);
+extern char *make_texsafe_lojban(char *s);
 extern void latex_write_open_bracket(BracketType type, int subscript);
 extern void latex_write_close_bracket(BracketType type, int subscript);
 
diff --git a/latexblk.c b/latexblk.c
index 89aa936..1020c8f 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -314,7 +314,7 @@ write_lojban_text(char *text)
   clear_eols();
 
   strcat(loj_text, " ");
-  strcat(loj_text, text);
+  strcat(loj_text, make_texsafe_lojban(text));
 
 }
 
-- 
2.43.0


From 83b1caee88eb5bb2886caee56b134ccc4d0029c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 20/52] fix: -w without a width crashed

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 0ab9ae2..5c9f3d0 100644
--- a/main.c
+++ b/main.c
@@ -211,6 +211,10 @@ main (int argc, char **argv)
       } else {
         /* Get next argument */
         --argc, ++argv;
+        if (argc == 0) {
+          fprintf(stderr, "The -w option needs a width\n");
+          exit(1);
+        }
         opt_output_width = atoi(*argv);
       }
     } else if (!strcmp(*argv, "--help")) {
-- 
2.43.0


From 8cb8ba17ccd0b763ea9c6d2e4aea5d76cad9af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 21/52] fix: HTML and LaTeX escape < > # in the labels of
 places too

---
 htmlout.c  | 8 +++++---
 latex.c    | 8 +++++---
 latexblk.c | 9 ++++++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/htmlout.c b/htmlout.c
index d200a8a..fda4e8e 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -381,16 +381,18 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
+  /* make_htmlsafe returns a static buffer */
+  printf("%s", make_htmlsafe(brivla));
   if (brac) {
-    printf("%s%s (%s)\n", brivla, place, make_htmlsafe(trans));
+    printf("%s (%s)\n", place, make_htmlsafe(trans));
   } else {
-    printf("%s%s %s\n", brivla, place, make_htmlsafe(trans));
+    printf("%s %s\n", place, make_htmlsafe(trans));
   }
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("%s", t);
+  printf("%s", make_htmlsafe(t));
 }
 /*}}}*/
 
diff --git a/latex.c b/latex.c
index 89f4aaf..2db09a5 100644
--- a/latex.c
+++ b/latex.c
@@ -467,16 +467,18 @@ start_tag(void)
 
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
+  /* make_texsafe returns a static buffer */
+  printf("\\textsl{\\footnotesize{}%s", make_texsafe(brivla));
   if (brac) {
-    printf("\\textsl{\\footnotesize{}%s%s (%s)}\n", brivla, place, make_texsafe(trans));
+    printf("%s (%s)}\n", place, make_texsafe(trans));
   } else {
-    printf("\\textsl{\\footnotesize{}%s%s %s}\n", brivla, place, make_texsafe(trans));
+    printf("%s %s}\n", place, make_texsafe(trans));
   }
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("\\textsl{\\footnotesize{}%s}\n", t);
+  printf("\\textsl{\\footnotesize{}%s}\n", make_texsafe(t));
 }
 /*}}}*/
 
diff --git a/latexblk.c b/latexblk.c
index 1020c8f..276ce97 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -412,11 +412,14 @@ static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
   char buffer[65536];
+  int n;
 
+  /* make_texsafe returns a static buffer */
+  n = sprintf(buffer, "%s", make_texsafe(brivla));
   if (brac) {
-    sprintf(buffer, "%s%s (%s)", brivla, place, make_texsafe(trans));
+    sprintf(buffer + n, "%s (%s)", place, make_texsafe(trans));
   } else {
-    sprintf(buffer, "%s%s %s", brivla, place, make_texsafe(trans));
+    sprintf(buffer + n, "%s %s", place, make_texsafe(trans));
   }
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
@@ -428,7 +431,7 @@ static void write_partial_tag_text(char *t)/*{{{*/
 {
   char buffer[65536];
 
-  sprintf(buffer, "%s", t);
+  sprintf(buffer, "%s", make_texsafe(t));
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
     strcat(tag_text, "\n");
   }
-- 
2.43.0


From d776d0c7650abae41e467c01c40357acdcf7bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 22/52] fix: zei compounds with long or many components and
 places beyond the fifth overran the component table

---
 translate.c | 53 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/translate.c b/translate.c
index 092811f..9adbc86 100644
--- a/translate.c
+++ b/translate.c
@@ -30,13 +30,19 @@ static int bufptr=0;
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
-  char text[6];
+  char *text;
   int places[6];
 } Component;/*}}}*/
 
+/* Conversions exist only for the first 5 places; the rest stay where they are */
+static int comp_place(Component *c, int place)/*{{{*/
+{
+  return (place <= 5) ? c->places[place] : place;
+}/*}}}*/
+
 /*{{{ Forward prototype for place/context translater. */
 extern char *adv_translate(char *w, int place, TransContext ctx);
-static void split_into_comps(char *canon, Component *comp, int *ncomp);
+static Component *split_into_comps(char *canon, int *ncomp);
 /*}}}*/
 
 char * translate(char *word)/*{{{*/
@@ -59,7 +65,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
 {
-  Component comp[32];
+  Component *comp;
   int ncomp;
   char *canon;
   char *result;
@@ -70,7 +76,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   canon = canon_lujvo(word);
   if (!canon) return "?";
   
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
   if (ncomp < 2) {
     /* Prevent infinite recursion */
     return NULL;
@@ -79,7 +85,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
-    xplace = comp[i].places[last ? place : 1];
+    xplace = comp_place(comp + i, last ? place : 1);
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
     if (i > 0) { strcat(result, "-"); }
     if (trans) {
@@ -95,14 +101,14 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *canon;
-  Component comp[32];
+  Component *comp;
   int n_comps;
   static char buffer[65536];
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
-  split_into_comps(canon, comp, &n_comps);
+  comp = split_into_comps(canon, &n_comps);
   buffer[0] = 0;
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
@@ -739,20 +745,26 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   *q = 0;
   return result;
 }/*}}}*/
-static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
+static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
   Take a string a+b+c and split it into an array of components separated by +
   signs.  If any components are se, te etc, bind them as place exchanges to the
-  following component.
+  following component.  The components of a 'zei' form may be of any number and
+  length.
   */
 {
   int i;
   int nc = 0;
-  char buffer[65536];
+  Component *comp;
+  char *buffer;
   char *p, *q;
   int place = 0;
 
-  strcpy(buffer, canon);
+  for (i=1, p=canon; *p; p++) {
+    if (*p == '+') i++;
+  }
+  comp = new_array(Component, i);
+  buffer = new_string(canon);
   p = buffer;
   while (*p) p++;
   while (p > buffer) {
@@ -763,7 +775,7 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
     else if (!strcmp(q, "te")) { place = 3; }
     else if (!strcmp(q, "ve")) { place = 4; }
     else if (!strcmp(q, "xe")) { place = 5; }
-    if (place > 0) {
+    if (place > 0 && nc > 0) {
       int t = comp[0].places[1];
       comp[0].places[1] = comp[0].places[place];
       comp[0].places[place] = t;
@@ -777,12 +789,13 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
       }
       nc++;
       comp[0].pure_start = comp[0].start = (p - buffer);
-      strcpy(comp[0].text, q);
+      comp[0].text = q;
     }
-    *p = 0;
+    if (*p == '+') *p = 0;
   }
 
   *ncomp = nc;
+  return comp;
 
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
@@ -803,14 +816,14 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     strcpy(generic, orig + cutg);
     strncpy(specific, orig, cuts);
     specific[cuts] = 0;
-    new_place = comp[ncomp-gather].places[place];
+    new_place = comp_place(comp + ncomp-gather, place);
   } else {
     cutg = comp[gather].start + 1;
     cuts = cutg;
     strncpy(generic, orig, cutg);
     generic[cutg] = 0;
     strcpy(specific, orig + cuts);
-    new_place = comp[gather-1].places[place];
+    new_place = comp_place(comp + gather-1, place);
   }
 
   sprintf(buffer, "*%1d%s%1d%s",
@@ -857,7 +870,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   char *canon;
   char *trans;
 
-  Component comp[32];
+  Component *comp;
   int ncomp;
 
   canon = canon_lujvo(w);
@@ -869,7 +882,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   if (!strchr(canon, '+')) return NULL;
 
   /* Split components into array. Work from the right. */
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
 
 #if 0
   {
@@ -886,7 +899,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   /* If there's only 1 component after conversions have been
      mapped onto it, do a place switch */
   if (ncomp == 1) {
-    int new_place = comp[0].places[place];
+    int new_place = comp_place(comp, place);
     return adv_translate(comp[0].text, new_place, ctx);
 
   } else {
@@ -898,7 +911,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 
     for (prec = 5; prec >= 0; prec--) {
       for (suffix = 1; suffix >= 0; suffix--) {
-        for (gather = 1; gather <= 2; gather++) {
+        for (gather = 1; gather <= 2 && gather < ncomp; gather++) {
           trans = lookup_template_match(prec, suffix, gather, canon, comp, ncomp, place, ctx);
           if (trans) {
             if (strcmp(trans, "-")) {
-- 
2.43.0


From ea68f965de4f54cce1dd5f91a9bee2e357902e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:46 +0000
Subject: [PATCH 23/52] fix: words and quotations longer than 1023 characters
 overran the buffers of the glosser

---
 output.c | 64 +++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/output.c b/output.c
index dad7fd5..3086a8a 100644
--- a/output.c
+++ b/output.c
@@ -336,7 +336,7 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 /*}}}*/
 static char * get_cmavo_text_inside_node(TreeNode *x)/*{{{*/
 {
-  static char buffer[1024];
+  static char buffer[65536];
   buffer[0] = 0;
   get_cmavo_text_inside_node_internal(x, buffer);
   return buffer;
@@ -775,10 +775,10 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
       
     case N_ZO:
       {
-        char buffer[1024];
+        char *trans;
         sprintf(loj, "zo %s", x->data.zo.text);
-        attempt_translation(x->data.zo.text, buffer);
-        sprintf(eng, "\"%s\"", buffer);
+        trans = translate(x->data.zo.text);
+        sprintf(eng, "\"%s\"", trans ? trans : "?");
       }
       break;
 
@@ -1275,9 +1275,47 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   }
 }
 /*}}}*/
+/* Longest translation the translate functions return */
+#define MAX_TRANS 65536
+
+static void get_text_sizes(TreeNode *x, int *loj_size, int *eng_size)/*{{{*/
+/* Work out how much room get_lojban_word_and_translation needs for this node
+   (quotations may be of any length) */
+{
+  *loj_size = 64;
+  *eng_size = MAX_TRANS + 64;
+  switch (x->type) {
+    case N_ZO:
+      *loj_size += strlen(x->data.zo.text);
+      break;
+    case N_ZOI:
+      *loj_size += strlen(x->data.zoi.form) + 2 * strlen(x->data.zoi.term) + strlen(x->data.zoi.text);
+      break;
+    case N_ZEI:
+      *loj_size += strlen(x->data.zei.sep_with_zei);
+      *eng_size += x->data.zei.nchildren * (MAX_TRANS + 64);
+      break;
+    case N_LOhU:
+      *loj_size += strlen(x->data.lohu.text);
+      break;
+    case N_BU:
+      *loj_size += strlen(x->data.bu.word);
+      break;
+    case N_BRIVLA:
+      *loj_size += strlen(x->data.brivla.word);
+      break;
+    case N_CMENE:
+      *loj_size += strlen(x->data.cmene.word);
+      break;
+    default:
+      break;
+  }
+}
+/*}}}*/
 static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 {
-  char loj[1024], eng[1024];
+  char *loj, *eng;
+  int loj_size, eng_size;
   int i, n;
 
   if (x->type == N_NONTERM) {/*{{{*/
@@ -1403,6 +1441,9 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
     }
 
     /* FIXME : Need to do lojban word and translation stuff here. */
+    get_text_sizes(x, &loj_size, &eng_size);
+    loj = new_array(char, loj_size);
+    eng = new_array(char, eng_size);
     get_lojban_word_and_translation(x, loj, eng);
     switch (what) {
       case SHOW_LOJBAN:
@@ -1437,11 +1478,18 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
     if (what == SHOW_BOTH || what == SHOW_LOJBAN || what == SHOW_LOJBAN_AND_INDICATORS) {
       (drv->close_bracket)(x->data.zei.brackets, x->data.zei.number);
     }
+
+    Free(loj);
+    Free(eng);
 /*}}}*/
   } else {/*{{{*/
     /* Terminal token */
-    char lojbuf[1024];
+    char *lojbuf;
 
+    get_text_sizes(x, &loj_size, &eng_size);
+    loj = new_array(char, loj_size);
+    eng = new_array(char, eng_size);
+    lojbuf = new_array(char, loj_size + 2); /* and 2 dots */
     lojbuf[0] = 0;
 
     get_lojban_word_and_translation(x, loj, eng);
@@ -1497,7 +1545,9 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         break;
     }
 
-
+    Free(loj);
+    Free(eng);
+    Free(lojbuf);
   }
 /*}}}*/
 }
-- 
2.43.0


From 3889431cdec77a15d17dff23621268daa1a16e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 24/52] fix: -b overran its line buffers with long quotations,
 widths over 500 and more than 32 place labels on a sumti

---
 textblk.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/textblk.c b/textblk.c
index 3769388..73f7cdc 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,7 +19,8 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 512
+/* Must hold the longest word or quotation */
+#define BUFFER_SIZE 65536
 
 typedef enum {
   ST_OPEN,
@@ -30,7 +31,7 @@ typedef enum {
 
 static States state;
 
-/* Largest number of tags supported on a single sumti */
+/* Largest number of tag lines; any further tags of a sumti go on the last */
 #define MAX_TAGS 32
 
 /* Variables to hold block being built */
@@ -76,6 +77,9 @@ static void initialise(void)/*{{{*/
   clear_line_buffer();
 
   max_width = opt_output_width;
+  if (max_width > BUFFER_SIZE / 2) {
+    max_width = BUFFER_SIZE / 2;
+  }
 }
 /*}}}*/
 static void write_prologue(void)/*{{{*/
@@ -378,7 +382,7 @@ static void end_tags(void)/*{{{*/
 }/*}}}*/
 static void start_tag(void)/*{{{*/
 {
-  if (!first_tag) {
+  if (!first_tag && tags_used < MAX_TAGS - 1) {
     tags_used++;
   }
   first_tag = 0;
-- 
2.43.0


From 2e705ad03b3e87dfacb39616f160e17159c4d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 25/52] fix: more than 20 terms or conversions overran the
 tables of the place labelling

---
 terms.c | 91 ++++++++++++++++++++++++++++-----------------------------
 1 file changed, 45 insertions(+), 46 deletions(-)

diff --git a/terms.c b/terms.c
index af6a9cf..9e354b6 100644
--- a/terms.c
+++ b/terms.c
@@ -19,8 +19,6 @@
 #include "cmavotab.h"
 /*}}}*/
 
-#define MAX_TERMS_IN_VECTOR 20
-
 /* Maximum argument position.  Even the most horrific abstraction or
    lujvo would be pushed to get this many args!!! */
 
@@ -48,7 +46,7 @@ typedef struct TermVectorEntry{
 
 typedef struct TermVector{
   int n_nodes;
-  TermVectorEntry nodes[MAX_TERMS_IN_VECTOR];
+  TermVectorEntry *nodes; /* Grows as needed, never changed once built */
 } TermVector;
 
 /*+ Enumeration tags for the LinkConvEntry type. +*/
@@ -81,7 +79,7 @@ typedef struct {
   selbri3 KE'E BE links' constructions, which could recurse a lot. +*/
 typedef struct {
   int n;
-  LinkConvEntry e[MAX_TERMS_IN_VECTOR];
+  LinkConvEntry *e;
 } LinkConv;
 /*}}}*/
 /* Forward prototypes *//*{{{*/
@@ -93,6 +91,18 @@ static void process_selbri_3_args(TreeNode *s3, TermVector *pre, TermVector *pos
 static void tv_init(TermVector *tv)/*{{{*/
 {
   tv->n_nodes = 0;
+  tv->nodes = NULL;
+}
+/*}}}*/
+static void tv_append(TermVector *tv, TermType type, int pos, TreeNode *node)/*{{{*/
+{
+  int n = tv->n_nodes;
+
+  tv->nodes = grow_array(TermVectorEntry, n + 1, tv->nodes);
+  tv->nodes[n].type = type;
+  tv->nodes[n].pos = pos;
+  tv->nodes[n].node = node;
+  tv->n_nodes = n + 1;
 }
 /*}}}*/
 static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
@@ -101,15 +111,11 @@ static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
   int i, n1, n2;
   tn = s1->n_nodes + s2->n_nodes;
 
-  /* If this is exceeded, we'll need to reassess the design.  Really
-     ought to make the arrays dynamic but that incurs hassle of
-     releasing them. */
-  assert(tn <= MAX_TERMS_IN_VECTOR);
-
   n1 = s1->n_nodes;
   n2 = s2->n_nodes;
 
   r->n_nodes = tn;
+  r->nodes = tn ? new_array(TermVectorEntry, tn) : NULL;
 
   for (i=0; i<n1; i++) {
     r->nodes[i] = s1->nodes[i];
@@ -128,6 +134,7 @@ static void tv_reverse(TermVector *dest, TermVector *src)/*{{{*/
   assert(dest != src); /* Not designed to cope with this case */
 
   n = dest->n_nodes = src->n_nodes;
+  dest->nodes = n ? new_array(TermVectorEntry, n) : NULL;
 
   for (i=0; i<n; i++) {
     dest->nodes[i] = src->nodes[n-1-i];
@@ -137,12 +144,13 @@ static void lc_init(LinkConv *lc)/*{{{*/
 {
   /* Initialise a linkconv list to empty */
   lc->n = 0;
+  lc->e = NULL;
 }
 /*}}}*/
 static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 {
   /* Append a SE conversion to a linkconv chain */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc->e = grow_array(LinkConvEntry, lc->n + 1, lc->e);
 
   lc->e[lc->n].data.se.conv = conv;
   lc->e[lc->n].data.se.senode = senode;
@@ -152,7 +160,7 @@ static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 /*}}}*/
 static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc->e = grow_array(LinkConvEntry, lc->n + 1, lc->e);
 
   lc->e[lc->n].data.jai_tag.tag = tag;
   lc->e[lc->n].data.jai_tag.inner_tu2 = inner_tu2;
@@ -163,7 +171,7 @@ static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/
 /*}}}*/
 static void lc_append_jai(LinkConv *lc)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc->e = grow_array(LinkConvEntry, lc->n + 1, lc->e);
 
   lc->e[lc->n].type = LC_JAI;
   ++(lc->n);
@@ -174,7 +182,7 @@ static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
 {
   /* Append a set of linked sumti to a linkconv chain.  Note, a dynamic COPY is
      made of 'v'. */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc->e = grow_array(LinkConvEntry, lc->n + 1, lc->e);
   lc->e[lc->n].data.links = new(TermVector);
 
   /* Deep structure copy */
@@ -191,7 +199,16 @@ static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
   produce a local copy onto which extra terms can be appended, rather than to
   make a completely general copy.  */
   
-  *dest = *src;
+  int i;
+
+  lc_init(dest);
+  if (src->n > 0) {
+    dest->n = src->n;
+    dest->e = new_array(LinkConvEntry, src->n);
+    for (i=0; i<src->n; i++) {
+      dest->e[i] = src->e[i];
+    }
+  }
 }
 /*}}}*/
 static int recover_se_conv(TreeNode *x)/*{{{*/
@@ -327,9 +344,7 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
 
     switch (tc->data.nonterm.type) {
       case TERM_PLAIN_SUMTI:
-        vv.nodes[vv.n_nodes].type = TRM_POS;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        tv_append(&vv, TRM_POS, 0, t);
         break;
       case TERM_PLACED_SUMTI:
         {
@@ -337,22 +352,15 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
           tcc = child_ref(tc, 0);
           pos = recover_fa_conv(tcc);
           if (pos == 0) {
-            vv.nodes[vv.n_nodes].type = TRM_FAhI;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = 0;
+            tv_append(&vv, TRM_FAhI, 0, t);
           } else {            
-            vv.nodes[vv.n_nodes].type = TRM_FA;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = pos;
+            tv_append(&vv, TRM_FA, pos, t);
           }
-          vv.n_nodes++;
         }
         break;
       case TERM_TAGGED_SUMTI:
       case TAGGED_TERMSET:
-        vv.nodes[vv.n_nodes].type = TRM_TAG;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        tv_append(&vv, TRM_TAG, 0, t);
         break;
       case TERMSET:
         fprintf(stderr, "No place tagging for termset at line %d\n", t->start_line);
@@ -507,7 +515,7 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     if (t->nodes[i].type == TRM_FA) {
       pos = t->nodes[i].pos;
       if (pos < FAI_OFFSET) {
-        if (place[pos].valid) {
+        if (pos < MAX_POS && place[pos].valid) {
           fixup_term_place(t->nodes[i].node, &place[pos], tt);
           place[pos].taken = 1;
         } else {
@@ -516,7 +524,7 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
       } else {
         pos -= FAI_OFFSET;
         pos++;
-        if (fai[pos].valid) {
+        if (pos < MAX_POS && fai[pos].valid) {
           fixup_term_place(t->nodes[i].node, &fai[pos], tt);
           fai[pos].taken = 1;
         } else {
@@ -531,8 +539,8 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     switch (t->nodes[i].type) {
       case TRM_POS :
         /* Look for first unassigned place */
-        while (place[base].taken) ++base;
-        if (base > MAX_POS) {
+        while (base < MAX_POS && place[base].taken) ++base;
+        if (base >= MAX_POS) {
           fprintf(stderr, "Too many places assigned\n");
         } else {
           fixup_term_place(t->nodes[i].node, &place[base], tt);
@@ -664,7 +672,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -683,7 +691,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -1597,9 +1605,7 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
 
       switch (tc->data.nonterm.type) {
         case TERM_PLAIN_SUMTI:
-          tv.nodes[tv.n_nodes].type = TRM_POS;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          tv_append(&tv, TRM_POS, 0, tm);
           break;
         case TERM_PLACED_SUMTI:
           {
@@ -1607,22 +1613,15 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
             tcc = child_ref(tc, 0);
             pos = recover_fa_conv(tcc);
             if (pos == 0) {
-              tv.nodes[tv.n_nodes].type = TRM_FAhI;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = 0;
+              tv_append(&tv, TRM_FAhI, 0, tm);
             } else {
-              tv.nodes[tv.n_nodes].type = TRM_FA;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = pos;
+              tv_append(&tv, TRM_FA, pos, tm);
             }
-            tv.n_nodes++;
           }
           break;
         case TERM_TAGGED_SUMTI:
         case TAGGED_TERMSET:
-          tv.nodes[tv.n_nodes].type = TRM_TAG;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          tv_append(&tv, TRM_TAG, 0, tm);
           break;
         case TERMSET:
           fprintf(stderr, "Termset at line %d ignored, place tagging will be faulty\n", tm->start_line);
-- 
2.43.0


From 1118a70c88ea71feb8490997ea81cec3431e81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 26/52] fix: -b exhausted the stack on texts nested more than
 about a hundred levels deep

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 726f437..81f4bcc 100644
--- a/tree.c
+++ b/tree.c
@@ -311,7 +311,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
-  char buffer[65536];
+  char buffer[64];
 
   if (x->type == N_NONTERM) {
     clear_eols(state);
-- 
2.43.0


From ef60b41ce12eefa8627d387b0fcb6c8179fae970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 27/52] fix: names with a dozen la, lai or doi in them
 exhausted the stack

---
 lex1.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lex1.c b/lex1.c
index ca3d67c..ef0e9a7 100644
--- a/lex1.c
+++ b/lex1.c
@@ -189,7 +189,9 @@ process_cmene(char *buf, int start_line, int start_column,
             buf, start_line, start_column);
     had_bad_tokens = 1;
   } else if (is_bad) {
-    char prefix[65536], labuf[8];
+    /* Not on the stack, because this recurses for each la, lai and doi */
+    char *prefix = new_array(char, strlen(buf) + 1);
+    char labuf[8];
     char *p, *q;
     int len1, len2;
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
@@ -198,6 +200,7 @@ process_cmene(char *buf, int start_line, int start_column,
     *q = 0;
 
     if (prefix[0]) process_word(prefix, start_line, start_column);
+    Free(prefix);
     process_word(labuf, start_line, start_column+len1);
     process_word(tail, start_line, start_column+len1+len2);
   } else {
@@ -220,8 +223,9 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
   char **pw;
   char *p, *q;
   int incr;
-  char buf2[65536];
+  char *buf2; /* not on the stack, for the callers which recurse */
   for (pw=pws; pw<pwe; pw++) {
+    buf2 = new_array(char, *(pw+1) - *pw + 1);
     incr = 0;
     for (p=*pw, q=buf2; p<*(pw+1);) {
       *q++ = *p++;
@@ -230,6 +234,7 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
     *q = 0;
     process_cmavo(buf2, start_line, *column);
     *column += incr;
+    Free(buf2);
   }
 }
 
@@ -245,9 +250,9 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 static int
 process_word(char *buf, int start_line, int start_column)
 {
-  char buf2[65536];
+  char *buf2;
   TreeNode *tok;
-  char *word_starts[65536];
+  char **word_starts;
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
@@ -299,6 +304,9 @@ process_word(char *buf, int start_line, int start_column)
 
   /* Analyse word type */
   
+  /* Not on the stack, because this recurses for names with la, lai and doi */
+  buf2 = new_array(char, strlen(buf) + 1);
+  word_starts = new_array(char *, strlen(buf) + 2);
   pws = pwe = word_starts;
   /* FIXME: Need to get morf_xtra info back here, to help with splitting bad
    * cmene */
@@ -361,6 +369,8 @@ process_word(char *buf, int start_line, int start_column)
       assert(0);
       break;
   }
+  Free(buf2);
+  Free(word_starts);
   return 1;
 }
 
-- 
2.43.0


From ec08bc5cd4de9b22d9e723473f9494e5359d1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 28/52] fix: zei compounds of many components needed gigabytes
 for their translation

---
 output.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/output.c b/output.c
index 3086a8a..5055e31 100644
--- a/output.c
+++ b/output.c
@@ -1282,6 +1282,8 @@ static void get_text_sizes(TreeNode *x, int *loj_size, int *eng_size)/*{{{*/
 /* Work out how much room get_lojban_word_and_translation needs for this node
    (quotations may be of any length) */
 {
+  int i;
+
   *loj_size = 64;
   *eng_size = MAX_TRANS + 64;
   switch (x->type) {
@@ -1293,7 +1295,13 @@ static void get_text_sizes(TreeNode *x, int *loj_size, int *eng_size)/*{{{*/
       break;
     case N_ZEI:
       *loj_size += strlen(x->data.zei.sep_with_zei);
-      *eng_size += x->data.zei.nchildren * (MAX_TRANS + 64);
+      /* Each component may get translated on its own */
+      for (i=0; i<x->data.zei.nchildren; i++) {
+        char *word = build_string_from_node(x->data.zei.children[i]);
+        char *trans = translate(word);
+        *eng_size += 16 + (trans ? strlen(trans) : 0);
+        Free(word);
+      }
       break;
     case N_LOhU:
       *loj_size += strlen(x->data.lohu.text);
-- 
2.43.0


From 53ef5d486c8ce3874e5216366e60e990fe361d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 29/52] fix: cmafihe -w without a width crashed

---
 cm_main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cm_main.c b/cm_main.c
index e929ab0..a3baa8e 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -40,6 +40,10 @@ main (int argc, char **argv)
 #endif 
     } else if (!strcmp(*argv, "-w")) {
       ++argv, --argc;
+      if (argc == 0) {
+        fprintf(stderr, "No width given with -w\n");
+        exit(1);
+      }
       width = atoi(*argv);
     } else if (!strcmp(*argv, "-v")) {
       fprintf(stderr, "cmafihe version %s\n", version_string);
-- 
2.43.0


From c336bd0fa7c299d4759876dc3002a2d200c0effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 30/52] fix: -bt overran its table of reductions on deeply
 nested texts

---
 tracebk.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tracebk.c b/tracebk.c
index 3a8a022..d2f671a 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -17,8 +17,9 @@ typedef struct {
   int rule;
 } Reduction;
 
-static Reduction reductions[1024];
+static Reduction *reductions=NULL;
 static int n_reductions=0;
+static int max_reductions=0;
 
 /* command line options in main.c */
 extern int show_backtrace;
@@ -52,6 +53,10 @@ display_rule(int ruleno, int indent, int focus)
 void
 report_trace_reduce(int stateno, int ruleno)
 {
+  if (n_reductions == max_reductions) {
+    max_reductions += 1024;
+    reductions = grow_array(Reduction, max_reductions, reductions);
+  }
   reductions[n_reductions].rule = ruleno;
   reductions[n_reductions].state = stateno;
   n_reductions++;
-- 
2.43.0


From f4c96a6b346802c63e63658b43dc8b3000a0e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 31/52] fix: -bt named the wrong rules as reduced, and read
 past its tables for the last rule

---
 output2table.pl | 14 +++++++++++---
 tracebk.c       |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/output2table.pl b/output2table.pl
index 8257259..653cfd6 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -19,6 +19,7 @@ while (<>) {
 %codes = ();
 @decodes = ();
 $hicode = 0;
+$ruleoffset = 0; # What the parser adds to the rule numbers in the listing
 
 $latest_lhs = undef; # To track LHS symbol for bison v1.875 (1.75 also?) onwards
 
@@ -27,7 +28,11 @@ while (<>) {
     last if (/^Terminals, with rules/);
     next if (/^\s*$/);
     next if (/^\s*Number, Line, Rule/); # extra junk in recent bisons (1.31 onwards?)
-    next if (/^\s+0\s+/); # rule 0 in bison>=1.75 (confirmed in 1.875)?
+    if (/^\s+0\s+/) { # rule 0 in bison>=1.75 (confirmed in 1.875)?
+        # It's number 1 for the parser itself
+        $ruleoffset = 1;
+        next;
+    }
 
     my $number = undef;
     my $lhs = undef;
@@ -157,16 +162,19 @@ for $c (0 .. $#decodes) {
 }
 print "};\n";
 
+# Write rule number offset out
+print "static int ".$prefix."_ruleoffset = ".$ruleoffset.";\n";
+
 # Write rule index table out
 $n=0;
 $t = 0;
 print "static unsigned short ".$prefix."_ruleindex[] = {\n";
-for ($s=0;$s<=$#lhs;$s++) {
+for ($s=0;$s<=$#lhs+1;$s++) {
     print ", " unless ($n==0);
     printf "%d", $t;
     $n++;
     print "\n" if ($n%10 == 0);
-    $t += $rhsperrule[$s];
+    $t += $rhsperrule[$s] if ($s<=$#lhs);
 }
 print "};\n";
 
diff --git a/tracebk.c b/tracebk.c
index d2f671a..29eed05 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -57,7 +57,7 @@ report_trace_reduce(int stateno, int ruleno)
     max_reductions += 1024;
     reductions = grow_array(Reduction, max_reductions, reductions);
   }
-  reductions[n_reductions].rule = ruleno;
+  reductions[n_reductions].rule = ruleno - (require_elidables ? full_ruleoffset : norm_ruleoffset);
   reductions[n_reductions].state = stateno;
   n_reductions++;
 }
-- 
2.43.0


From 3d0b910c3450e9cd5ab812dfe2484a652e1e1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 32/52] fix: translating compounds of a dozen components
 exhausted the stack or garbled the gloss

---
 translate.c | 88 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/translate.c b/translate.c
index 9adbc86..b189f64 100644
--- a/translate.c
+++ b/translate.c
@@ -708,13 +708,34 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
   }
 
 }/*}}}*/
+static char * fix_trans_with_noun(char *src, char *trans, TransContext ctx, int found_full_trans)/*{{{*/
+/* Apply fix_trans_in_context with the noun form of the same entry, if there is
+   one */
+{
+  static char buffer[65536], w1n[65536];
+  char *trans1;
+
+  sprintf(buffer, "%sn", src);
+  trans1 = translate(buffer);
+  if (trans1) {
+    strcpy(w1n, trans1);
+  } else {
+    w1n[0] = 0;
+  }
+  return fix_trans_in_context(src, trans, ctx, w1n, found_full_trans);
+}/*}}}*/
 static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
 {
-  char *result = GETBUF();
+  /* Not in the common buffers yet, because translating the base uses many of
+     those. */
+  char *pattern = new_array(char, strlen(trans) + 1);
+  char *text = new_array(char, 65536);
+  char *result;
   char *p, *q, *r;
   char *localtrans;
-  q = result;
-  p = trans;
+  strcpy(pattern, trans);
+  q = text;
+  p = pattern;
   while (*p) {
     if (*p == '%') {
       int place = *++p - '0';
@@ -728,7 +749,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
         default: 
           ctx = TCX_NOUN;
           if (show_dictionary_defects) {
-            fprintf(stderr, "Broken base context for %s\n", trans);
+            fprintf(stderr, "Broken base context for %s\n", pattern);
           }
           break;
       }
@@ -743,6 +764,10 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
     }
   }
   *q = 0;
+  result = GETBUF();
+  strcpy(result, text);
+  Free(pattern);
+  Free(text);
   return result;
 }/*}}}*/
 static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
@@ -800,13 +825,15 @@ static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
 {
-  char generic[65536]; /* the part that's found in the LHS of the dictionary pattern match */
-  char specific[65536]; /* the other part of the string */
-  char buffer[65536];
+  /* These are not on the stack, because this recurses for each component. */
+  int size = strlen(orig) + 16;
+  char *generic = new_array(char, size); /* the part that's found in the LHS of the dictionary pattern match */
+  char *specific = new_array(char, size); /* the other part of the string */
+  char *buffer = new_array(char, size);
   int cutg, cuts;
   int new_place;
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
-  char *trans;
+  char *trans, *result;
   int got_full_trans;
   char * subst;
 
@@ -842,24 +869,23 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     if (trans[0] == '@') {
       /* redirection to another form */
       int redir_place = trans[1] - '0';
-      return adv_translate(specific, redir_place, ctx);
+      result = adv_translate(specific, redir_place, ctx);
     } else {
       /* Need to substitute % stuff. */
       subst = subst_base_in_pattern(trans, specific);
       if (got_full_trans) {
-        return subst;
+        result = subst;
       } else {
-        char buffer1[65536], *trans1, w1n[65536];
-        sprintf(buffer1, "*%1d%s%1dn", prec, generic, new_place);
-        trans1 = translate(buffer1);
-        if (trans1) { strcpy(w1n, trans1); }
-        else { w1n[0] = 0; }
-        return fix_trans_in_context(buffer, subst, ctx, w1n, got_full_trans);
+        result = fix_trans_with_noun(buffer, subst, ctx, got_full_trans);
       }
     }
   } else {
-    return NULL;
+    result = NULL;
   }
+  Free(generic);
+  Free(specific);
+  Free(buffer);
+  return result;
 }/*}}}*/
 static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 /*
@@ -931,9 +957,8 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 }/*}}}*/
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 {
-  char *trans, *trans1;
-  char w1n[65536];
-  char buffer[65536], buffer1[65536];
+  char *trans;
+  char *buffer;
   static char result[65536];
   char ctx_suffix[4] = "nvqt";
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
@@ -948,6 +973,9 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
     ctx = TCX_VERB;
   }
 
+  /* Not on the stack, because this recurses for each component of a lujvo. */
+  buffer = new_array(char, strlen(w) + 16);
+
   /* Try looking up the explicit gloss asked for */
   sprintf(buffer, "%s%1d%c", w, place, ctx_suffix[ctx]);
   trans = translate(buffer);
@@ -974,6 +1002,8 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
     if (trans[0] == '@') {
       char *p, *q;
       int pos;
+      Free(buffer);
+      buffer = new_array(char, strlen(trans) + 1);
       p = buffer;
       q = trans+1;
       while (isalpha(*q)) {
@@ -982,8 +1012,11 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       *p = 0;
       if (isdigit(*q)) {
         pos = *q - '0';
-        return adv_translate(buffer, pos, ctx);
+        trans = adv_translate(buffer, pos, ctx);
+        Free(buffer);
+        return trans;
       } else {
+        Free(buffer);
         if (show_dictionary_defects) {
           fprintf(stderr, "Error in dictionary entry for place %d of %s\n", place, w);
         }
@@ -993,15 +1026,9 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       /* Never get here */
     }
 
-    sprintf(buffer1, "%s%1dn", w, place);
-    trans1 = translate(buffer1);
-    if (trans1) {
-      strcpy(w1n, trans1);
-    } else {
-      w1n[0] = 0;
-    }
-
-    strcpy(result, fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans));
+    sprintf(buffer, "%s%1d", w, place);
+    strcpy(result, fix_trans_with_noun(buffer, trans, ctx, found_full_trans));
+    Free(buffer);
 
     return result;
 
@@ -1012,6 +1039,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
     if (show_dictionary_defects) {
       fprintf(stderr, "No advanced entry for [%s]\n", buffer);
     }
+    Free(buffer);
     trans = translate(w);
     if (trans) {
       strcpy(result, trans);
-- 
2.43.0


From e6ad84f1cc7cccc93f86177d8fa914ba19839ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 33/52] fix: a dictionary entry of unknown word class crashed
 the glosser

---
 translate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index b189f64..6bb07f4 100644
--- a/translate.c
+++ b/translate.c
@@ -567,7 +567,7 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
         if (show_dictionary_defects) {
           fprintf(stderr, "Dictionary contains bogus extended entry for [%s]\n", src);
         }
-        return NULL;
+        return trans;
         break;
     }
     
-- 
2.43.0


From f08344adc247967af8d2ff8020127da29eddcb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 34/52] fix: dictionary entries redirecting to each other in a
 circle exhausted the stack

---
 translate.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 6bb07f4..a3dfb3d 100644
--- a/translate.c
+++ b/translate.c
@@ -955,6 +955,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   return NULL;
 
 }/*}}}*/
+#define MAX_REDIRECTIONS 100
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *trans;
@@ -963,6 +964,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
   char ctx_suffix[4] = "nvqt";
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
   int found_full_trans=0;
+  static int redirections=0; /* '@' entries being followed */
 
   /* Special case.  A request for place 0 is mapped to a request for
      the x1 verb form.  This is to represent an 'infinitive' form
@@ -1012,7 +1014,17 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       *p = 0;
       if (isdigit(*q)) {
         pos = *q - '0';
-        trans = adv_translate(buffer, pos, ctx);
+        if (redirections < MAX_REDIRECTIONS) {
+          redirections++;
+          trans = adv_translate(buffer, pos, ctx);
+          redirections--;
+        } else {
+          /* They go round in circles */
+          if (show_dictionary_defects) {
+            fprintf(stderr, "Endless redirection in dictionary entry for place %d of %s\n", place, w);
+          }
+          trans = "??";
+        }
         Free(buffer);
         return trans;
       } else {
-- 
2.43.0


From 5d9f705656fde93ad9da8aa5a2c611a6d393e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 35/52] fix: cmafihe read before the start of unknown cmavo
 which begin with a vowel

---
 cm_gather.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cm_gather.c b/cm_gather.c
index f083068..e2b3c13 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -193,7 +193,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiuo'", *e));
       }
     }
     if (bufout[0]) {
-- 
2.43.0


From fb93effd68e5e0c8ff8ea4dc101b72061425a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 36/52] fix: long cmavo compounds overran buffers of cmafihe

---
 cm_gather.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index e2b3c13..6cfa62c 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -135,10 +135,13 @@ try_cmavo_fragment(node *p)
 
 static char *
 translate_selmao(char *x) {
-  char buffer[64];
+  char *buffer, *trans;
+  buffer = new_array(char, strlen(x) + 2);
   strcpy(buffer, "+");
   strcat(buffer, x);
-  return translate(buffer);
+  trans = translate(buffer);
+  free(buffer);
+  return trans;
 }
 
 /* ================================================== */
@@ -222,7 +225,6 @@ do_trans(void)
 {
   node *p;
   char *t, *x;
-  char buf[32];
 
   for (p=head.next; p!=&head; p=p->next) {
     switch (p->type) {
@@ -233,9 +235,7 @@ do_trans(void)
         if (t) {
           p->trans = new_string(t);
 
-          strcpy(buf, "+");
-          strcat(buf, x);
-          t = translate(buf);
+          t = translate_selmao(x);
           if (t) {
             p->selmao = new_string(t);
           } else {
-- 
2.43.0


From b9f659b011c8c519d34889456a26999ebd5e37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 37/52] fix: cmafihe -b overran its line buffers with words or
 widths over 500

---
 cm_output.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cm_output.c b/cm_output.c
index 5880bd5..7297312 100644
--- a/cm_output.c
+++ b/cm_output.c
@@ -19,20 +19,36 @@ int width;
 
 /* ================================================== */
 
-#define BUFFER_SIZE 512
-
 #ifdef PLIST
 static proplist_t dictionary = NULL;
 #endif
 
-static char lines[3][BUFFER_SIZE];
+static char *lines[3] = {NULL, NULL, NULL};
+static int lines_size = 0;
 static int width_used;
 
 /* ================================================== */
 
+/* Make sure the lines have room for so many characters */
+static void
+need_lines(int size)
+{
+  int i;
+  if (size >= lines_size) {
+    for (i=0; i<3; i++) {
+      lines[i] = (char *) realloc(lines[i], size + 256);
+      if (lines_size == 0) lines[i][0] = 0;
+    }
+    lines_size = size + 256;
+  }
+}
+
+/* ================================================== */
+
 static void
 block_newline(void)
 {
+  need_lines(0);
   if (width_used > 0) {
     printf("%s\n", lines[0]);
     printf("%s\n", lines[1]);
@@ -78,6 +94,7 @@ do_block(const char *a1, const char *a2, const char *a3)
     block_newline();
   }
 
+  need_lines(width_used + ml + 1);
   append_content(&lines[0][0], a1, l1, ml+1);
   append_content(&lines[1][0], a2, l2, ml+1);
   append_content(&lines[2][0], a3, l3, ml+1);
@@ -108,6 +125,7 @@ start_output(void)
     case OF_TEXT:
       break;
     case OF_TEXTBLK:
+      need_lines(0);
       lines[0][0] = lines[1][0] = lines[2][0] = 0;
       width_used = 0;
       break;
-- 
2.43.0


From a0ab250f9f52f44e1c9964eaf4955c464294cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:40 +0000
Subject: [PATCH 38/52] fix: smujajgau dropped the last character of a file
 without a newline at its end

---
 smujajgau.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..f215462 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -515,9 +515,13 @@ do_file(FILE *f)
   char src[65536];
   char dest[65536];
   char *p, *q, *r;
+  int len;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    len = strlen(line);
+    if (len > 0 && line[len-1] == '\n') {
+      line[len-1] = 0;
+    }
     p = line;
     while (*p && isspace(*p)) p++;
     if (!*p) {
-- 
2.43.0


From 40fc9fa4562bea3d611fcd1883bf169b172c48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:40 +0000
Subject: [PATCH 39/52] fix: smujajgau read before the start of empty and one
 letter keys

---
 smujajgau.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index f215462..64420ee 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -439,7 +439,6 @@ handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
   int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
@@ -538,6 +537,8 @@ do_file(FILE *f)
     }
     if (!*p) {
       fprintf(stderr, "Line [%s] does not contain a colon\n", line);
+    } else if (q == src) {
+      fprintf(stderr, "Line [%s] has nothing before the colon\n", line);
     } else {
       *q = 0;
       p++;
-- 
2.43.0


From db14143e1b73542444b4f07acaeb698fdf8955fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:40 +0000
Subject: [PATCH 40/52] fix: smujajgau wrote an unreadable dictionary when a
 key or translation was longer than 255 characters

---
 smujajgau.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 64420ee..07f5718 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -113,10 +113,16 @@ add_defn(char *key, char *val)
 {
   Trans *new_trans;
   Link *new_link;
+
+  if (strlen(key) > 255 || strlen(val) > 255) {
+    /* The file has one byte for each length */
+    fprintf(stderr, "Definition of [%s] is too long, ignored\n", key);
+    return;
+  }
+
   new_trans = new(Trans);
   new_link = new(Link);
 
-
   new_trans->action = DEFINE;
   new_trans->key = new_string(key);
   new_trans->val = new_string(val);
-- 
2.43.0


From 2a9a16688d4944ff6abc06393e794903f6324869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 41/52] fix: smujajgau kept the qualifier form of an entry when
 the entry was redefined

---
 smujajgau.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 07f5718..645d05e 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -410,7 +410,7 @@ read_database(FILE *in)
 
 /*++++++++++++++++++++++++++++++++++++++
   If we define an entry of the form abcde1, delete any entries of the form
-  abcde1[nvat].  These have to be redefined after, if required.
+  abcde1[nvatq].  These have to be redefined after, if required.
 
   char *s
   ++++++++++++++++++++++++++++++++++++++*/
@@ -418,9 +418,9 @@ read_database(FILE *in)
 static void
 preen(char *s) {
   char buffer[65536];
-  char *suffixes[] = {"n", "v", "a", "t"};
+  char *suffixes[] = {"n", "v", "a", "t", "q"};
   int i;
-  for (i=0; i<4; i++) {
+  for (i=0; i<5; i++) {
     strcpy(buffer, s);
     strcat(buffer, suffixes[i]);
     add_deletion(buffer);
-- 
2.43.0


From 957bc2f11d9433844540f50ae8ba369e66b4ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 42/52] fix: lujvo with an apostrophe were entered under the
 canonical form of their first letters

---
 smujajgau.c | 2 +-
 translate.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 645d05e..82e8be5 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -483,7 +483,7 @@ handle_mapping(char *src, char *dest)
     int baselen;
 
     /* Work out length of basic lujvo/gismu etc */
-    while (isalpha(*p)) p++;
+    while (isalpha(*p) || *p == '\'') p++;
     baselen = p - src;
 
     if ((baselen >= 6) && defines_place) {
diff --git a/translate.c b/translate.c
index a3dfb3d..c17ef12 100644
--- a/translate.c
+++ b/translate.c
@@ -1008,7 +1008,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       buffer = new_array(char, strlen(trans) + 1);
       p = buffer;
       q = trans+1;
-      while (isalpha(*q)) {
+      while (isalpha(*q) || *q == '\'') {
         *p++ = *q++;
       }
       *p = 0;
-- 
2.43.0


From 5f8a72ed1b6ab478386b254b926e6c6f93781eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 43/52] fix: the * markers of dictionary entries showed up in
 some glosses

---
 translate.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/translate.c b/translate.c
index c17ef12..7fbfdcd 100644
--- a/translate.c
+++ b/translate.c
@@ -317,17 +317,22 @@ static int starts_with_preposition(char *x)/*{{{*/
   }
 
 }/*}}}*/
+static int is_ok_after_star(char x)/*{{{*/
+{
+  return (!x || isspace(x) || x == '/');
+}
+/*}}}*/
 static char * basic_trans(char *x)/*{{{*/
 /*
-  Remove the '*' markers from a translation (only really applies to
-  discrete class words being used as qualifiers, so far).
+  Remove the '*' markers from a translation, for the forms which have nothing
+  applied at the markers.
   */
 {
   char *result, *p, *q;
   result = GETBUF();
   p = x, q = result;
   while (*p) {
-    if (p[0] != '*' || !isspace(p[1])) {
+    if (p[0] != '*' || !is_ok_after_star(p[1])) {
       *q++ = *p;
     }
     p++;
@@ -335,11 +340,6 @@ static char * basic_trans(char *x)/*{{{*/
   *q = 0;
   return result;
 }/*}}}*/
-static int is_ok_after_star(char x)/*{{{*/
-{
-  return (!x || isspace(x) || x == '/');
-}
-/*}}}*/
 static char * make_plural(char *x)/*{{{*/
 /*  Make a word plural, applying standard English rules for when to use
   -es or -ies instead of plain -s. */
@@ -612,18 +612,18 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
             if (*w1n) {
               sprintf(result, "being %s", w1n);
             } else {
-              sprintf(result, "being %s", w1);
+              sprintf(result, "being %s", basic_trans(w1));
             }
             break;
           case TCX_QUAL:
-            strcpy(result, w1);
+            strcpy(result, basic_trans(w1));
             strcat(result, "-ish");
             break;
           case TCX_TAG:
             if (*w1n) {
               strcpy(result, w1n);
             } else {
-              strcpy(result, w1);
+              strcpy(result, basic_trans(w1));
             }
             break;
         }
@@ -645,16 +645,16 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
       case CL_PROPERTY:
         switch (ctx) {
           case TCX_NOUN:
-            sprintf(result, "%s thing(s)", w1);
+            sprintf(result, "%s thing(s)", basic_trans(w1));
             break;
           case TCX_VERB:
-            sprintf(result, "being %s", w1);
+            sprintf(result, "being %s", basic_trans(w1));
             break;
           case TCX_QUAL:
-            strcpy(result, w1);
+            strcpy(result, basic_trans(w1));
             break;
           case TCX_TAG:
-            sprintf(result, "%s thing(s)", w1);
+            sprintf(result, "%s thing(s)", basic_trans(w1));
             break;
         }
         break;
@@ -662,16 +662,16 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
       case CL_REVERSE_PROPERTY:
         switch (ctx) {
           case TCX_NOUN:
-            sprintf(result, "thing(s) %s", w1);
+            sprintf(result, "thing(s) %s", basic_trans(w1));
             break;
           case TCX_VERB:
-            sprintf(result, "being %s", w1);
+            sprintf(result, "being %s", basic_trans(w1));
             break;
           case TCX_QUAL:
-            strcpy(result, w1);
+            strcpy(result, basic_trans(w1));
             break;
           case TCX_TAG:
-            sprintf(result, "thing(s) %s", w1);
+            sprintf(result, "thing(s) %s", basic_trans(w1));
             break;
         }
         break;
-- 
2.43.0


From 0f6c85bc3a1c3d5d44c30e34b19eca613bf6d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 44/52] fix: qualifier forms entered with the suffix a, as
 documented, were never used

---
 translate.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/translate.c b/translate.c
index 7fbfdcd..2870aa7 100644
--- a/translate.c
+++ b/translate.c
@@ -744,6 +744,7 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
       switch (context) {
         case 'n': ctx = TCX_NOUN; break;
         case 'v': ctx = TCX_VERB; break;
+        case 'a':
         case 'q': ctx = TCX_QUAL; break;
         case 't': ctx = TCX_TAG; break;
         default: 
@@ -856,6 +857,10 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
   sprintf(buffer, "*%1d%s%1d%s",
           prec, generic, new_place, ctx_suf_as_string[(int) ctx]);
   trans = translate(buffer);
+  if (!trans && (ctx == TCX_QUAL)) {
+    sprintf(buffer, "*%1d%s%1da", prec, generic, new_place);
+    trans = translate(buffer);
+  }
   if (trans) {
     got_full_trans = 1;
   } else {
@@ -981,6 +986,11 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
   /* Try looking up the explicit gloss asked for */
   sprintf(buffer, "%s%1d%c", w, place, ctx_suffix[ctx]);
   trans = translate(buffer);
+  if (!trans && (ctx == TCX_QUAL)) {
+    /* The qualifier form is also written with an 'a' (adjective) */
+    sprintf(buffer, "%s%1da", w, place);
+    trans = translate(buffer);
+  }
   if (trans) {
     found_full_trans = 1;
   }
-- 
2.43.0


From 48267d259e11bcccbd4e76c191ad1c564da08331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 45/52] fix: cmafihe did not translate cmavo after a pause
 inside a compound

---
 cm_gather.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index 6cfa62c..9d77708 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -160,13 +160,13 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
   strcpy(buf, lojban);
 
   pbuf = buf;
-  if (*pbuf == '.') {
-    pbuf++;
-  }
 #if DIAG
   fprintf(stderr, "Start with %s\n", pbuf);
 #endif
   while (*pbuf) {
+    if (*pbuf == '.') {
+      pbuf++;
+    }
     e = pbuf;
     while (*e) e++;
     while (e > pbuf) {
-- 
2.43.0


From 36cd3941a2373954bc7943e660c0ea26062808c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 46/52] fix: cmafihe put a stray hyphen before the translation
 of a lujvo starting with sel, ter, vel or xel

---
 cm_translate.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index 7e2a8dd..1c0dd30 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -38,8 +38,9 @@ translate(char *word)
 /* ================================================== */
 
 static void
-append_trans(char *trans, char *result, int initial)
+append_trans(char *trans, char *result)
 {
+  int initial = (result[0] == 0);
   if (trans) {
     if (initial) {
       strcpy(result, trans);
@@ -125,7 +126,7 @@ translate_lujvo(char *word)
     if (strlen(w) == 5) {
       /* trailing gismu */
       trans = translate_comp(w, &conversion);
-      append_trans(trans, result, initial);
+      append_trans(trans, result);
       break;
     } else {
       /* Not 5 letter, see what else */
@@ -136,17 +137,7 @@ translate_lujvo(char *word)
         strcpy(buf,"%");
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
-        if (trans) {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, trans);
-        } else {
-          if (!initial) {
-            strcat(result, "-");
-          }
-          strcat(result, "?");
-        }
+        append_trans(trans, result);
         break;
       } else {
         /* Try to pull off leading rafsi component and process remainder */
@@ -169,7 +160,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,3);
             buf[4] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result);
           }
           w += 4; /* and go around again */
         } else if (yy && ypos == 4) {
@@ -178,7 +169,7 @@ translate_lujvo(char *word)
           strncpy(buf+1,w,4);
           buf[5] = 0;
           trans = translate_comp(buf, &conversion);
-          append_trans(trans, result, initial);
+          append_trans(trans, result);
           w += 5; /* and go around again */
 
         } else {
@@ -192,7 +183,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,4);
             buf[5] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result);
 
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[3]) &&
@@ -217,7 +208,7 @@ translate_lujvo(char *word)
               strncpy(buf+1,w,3);
               buf[4] = 0;
               trans = translate_comp(buf, &conversion);
-              append_trans(trans, result, initial);
+              append_trans(trans, result);
             }
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[2]) &&
-- 
2.43.0


From cd40d6979062f30f48809d2603b418509b7a54ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 47/52] fix: cmafihe applied the se, te, ve or xe of a lujvo to
 all components after it

---
 cm_translate.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index 1c0dd30..9c83692 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -66,15 +66,17 @@ translate_comp(char *w, int *conversion)
   char buf[64], buf2[4];
   static char result[65536];
   char *trans;
+  int conv = *conversion;
+  *conversion = 0; /* it applies to this component only */
   strcpy(buf, w);
-  if (*conversion) {
-    buf2[0] = '0' + *conversion;
+  if (conv) {
+    buf2[0] = '0' + conv;
     buf2[1] = 0;
     strcat(buf, buf2);
     trans = translate(buf);
     if (!trans) {
       result[0] = 0;
-      switch (*conversion) {
+      switch (conv) {
         case 2:
           strcpy(result, "2nd conv-");
           break;
@@ -99,7 +101,6 @@ translate_comp(char *w, int *conversion)
   } else {
     trans = translate(w);
   }
-  *conversion = 0;
   return trans;
 }
 
-- 
2.43.0


From a90d9d255386192888df633eec78fe6d75813371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 48/52] fix: cmafihe showed the class letters and markers of
 the entries of places

---
 cm_translate.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cm_translate.c b/cm_translate.c
index 9c83692..2393965 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -97,6 +97,18 @@ translate_comp(char *w, int *conversion)
         strcat (result, "??");
       }
       return result;
+    } else {
+      /* The entry of a place: leave out its class and the markers */
+      char *q = result;
+      if (trans[0] && trans[1] == ';') {
+        trans += 2;
+      }
+      for (; *trans; trans++) {
+        if (*trans == '*' && (trans[1] == 0 || trans[1] == ' ' || trans[1] == '/')) continue;
+        *q++ = *trans;
+      }
+      *q = 0;
+      return result;
     }
   } else {
     trans = translate(w);
-- 
2.43.0


From b4f44e4cfffb09c6fd2721fca18f970d0ff0d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:43 +0000
Subject: [PATCH 49/52] fix: with -b a word without translation at the end of a
 paragraph was shown in the next one

---
 textblk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/textblk.c b/textblk.c
index 73f7cdc..7f81f8b 100644
--- a/textblk.c
+++ b/textblk.c
@@ -110,10 +110,13 @@ static void flush_line(void)/*{{{*/
    next open bracket or ordinary text.) */
 static int pending_eols = 0;
 
+static void flush_block(void);
+
 static void clear_eols(void)/*{{{*/
 {
   if (pending_eols > 0) {
 
+    flush_block();
     flush_line();
 
     if (pending_eols > 1) {
-- 
2.43.0


From 8f31da905241ce4192a1d6914359a1d0fc3550eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 50/52] fix: uninitialised terms crashed the place labelling of
 gi'e ke without terms after it

---
 terms.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terms.c b/terms.c
index 9e354b6..7afc328 100644
--- a/terms.c
+++ b/terms.c
@@ -1351,11 +1351,11 @@ static void process_bridi_tail(TreeNode *bt, TermVector *pre, TermVector *post)/
         process_bridi_tail_1(bt1, pre, &new_post);
         process_bridi_tail(btc, pre, &new_post);
       } else {
-        process_bridi_tail_1(bt1, pre, &new_post);
+        process_bridi_tail_1(bt1, pre, post);
         process_bridi_tail(btc, pre, post);
       }
     } else {
-      process_bridi_tail_1(bt1, pre, &new_post);
+      process_bridi_tail_1(bt1, pre, post);
       process_bridi_tail(btc, pre, post);
     }
   }
-- 
2.43.0


From b938fcb283d19505ece684c904b21c2db24dc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 51/52] fix: connect mathematical operands with ek, not with
 jek

The rule operand-1 of the grammar (quoted in the comment above it) joins
operands with joik-ek; the parser took jek, so that li pa .a re was refused
and li pa ja re accepted.
---
 rpc2x.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc2x.y b/rpc2x.y
index 031c235..003192b 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -1565,8 +1565,8 @@ operand-1<382> = operand-2 [joik-ek operand-2] ...
 operand_1 : operand_2
           | operand_1 joik free_seq operand_2
           | operand_1 joik          operand_2
-          | operand_1 jek  free_seq operand_2
-          | operand_1 jek           operand_2
+          | operand_1 ek   free_seq operand_2
+          | operand_1 ek            operand_2
           ;
 
 
-- 
2.43.0


From fa40c54d9550f89ae8846e46a6e3b84f1cdf35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 52/52] fix: a GAhO after an interval belongs to it only if
 there is one before it

---
 categ.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/categ.c b/categ.c
index 40a045e..178b6d4 100644
--- a/categ.c
+++ b/categ.c
@@ -146,6 +146,7 @@ static void categorize_guhek(TreeNode *head)/*{{{*/
 static void categorize_joik(TreeNode *head)/*{{{*/
 {
   TreeNode *x, *y;
+  int has_gaho;
 
   for (x = head->next; x!=head; x=x->next) {
     if (cmtest(x, JOI)) {
@@ -162,12 +163,14 @@ static void categorize_joik(TreeNode *head)/*{{{*/
       /* Backup over any SE preceding and insert PRIVATE_START_JOIK */
       y = x->prev;
       if (cmtest(y, SE)) y = y->prev;
-      if (cmtest(y, GAhO)) y = y->prev;
+      has_gaho = cmtest(y, GAhO);
+      if (has_gaho) y = y->prev;
       insert_marker_after(y, PRIVATE_START_JOIK, "PRIVATE_START_JOIK");
       
+      /* A GAhO after it belongs to it only if there is one before it */
       y = x->next;
       if (cmtest(y, NAI)) y = y->next;
-      if (cmtest(y, GAhO)) y = y->next;
+      if (has_gaho && cmtest(y, GAhO)) y = y->next;
       insert_marker_before(y, PRIVATE_END_JOIK, "PRIVATE_END_JOIK");
     }
   }
-- 
2.43.0

