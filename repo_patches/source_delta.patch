From 0c590eb6df1cb77e6f7b7e9b491e36b4104bccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 001/104] fix: lemon closed the generated parser's header
 comment too early

Every generated parser contained a stray '.' and '*/' outside of any comment
and so failed to compile.
---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..332dd49 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4955,7 +4955,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
-- 
2.43.0


From 545312384dd2b01df0d463c64f03a5d6d9b6662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 002/104] fix: lemon read before the start of an empty %include
 text

A grammar with no %include at all (the default text is "") made tplt_print()
look at str[-1] of an empty string.
---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 332dd49..4523134 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4065,7 +4065,7 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
-  if( str==0 ) return;
+  if( str==0 || str[0]==0 ) return;
   while( *str ){
     putc(*str,out);
     if( *str=='\n' ) (*lineno)++;
-- 
2.43.0


From f542792e1e49e24af3d2cbeefdac2bc2718928c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 003/104] fix: lemon -r wrote a parser with empty tables

With -r the per-state action counts and the number of states were never
computed, so the generated parser had no rows and failed an assertion on its
first token.
---
 lemon/lemon.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4523134..b4db64f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1836,7 +1836,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5697,7 +5697,7 @@ static int stateResortCompare(const void *a, const void *b){
 ** Renumber and resort states so that states with fewer choices
 ** occur at the end.  Except, keep state 0 as the first state.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int noResort)
 {
   int i;
   struct state *stp;
@@ -5723,12 +5723,13 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
+  lemp->nxstate = lemp->nstate;
+  if( noResort ) return;
   qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
         stateResortCompare);
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
   }
-  lemp->nxstate = lemp->nstate;
   while( lemp->nxstate>1 && lemp->sorted[lemp->nxstate-1]->autoReduce ){
     lemp->nxstate--;
   }
-- 
2.43.0


From ca58252b82ab8be6ca62e2099f3fdf6b0e3d2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 004/104] fix: lemon kept the reduce of a %nonassoc conflict
 beside its error action

The error entry and the reduce were both inserted for the same lookahead, so
with -c or in a state that uses the wildcard the reduce won, and a second rule
completing on that lookahead failed an assertion in resolve_conflict().
---
 lemon/lemon.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index b4db64f..6c8015e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1321,6 +1321,21 @@ static int resolve_conflict(
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
       apx->type = ERROR;
+      apy->type = RD_RESOLVED;
+    }
+  }else if( apx->type==ERROR && apy->type==REDUCE ){
+    /* The shift on this lookahead was already turned into an error by
+    ** another rule.  Judge this rule against the precedence of that shift. */
+    spx = apx->sp;
+    spy = apy->x.rp->precsym;
+    if( spy==0 || spy->prec<0 ){
+      apy->type = SRCONFLICT;
+      errcnt++;
+      ++lemp->nconflict_sr;
+    }else if( spx->prec<spy->prec ){
+      apx->type = SH_RESOLVED;
+    }else{
+      apy->type = RD_RESOLVED;
     }
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
-- 
2.43.0


From 21242cb301f525acfa08767820f12fd362b1ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 005/104] fix: lemon read past the end of its input in
 unterminated C code

A comment or string left open inside a C code block moved the scanner beyond
the terminating NUL of the file buffer.
---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6c8015e..33e10cd 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3193,6 +3193,7 @@ void Parse(struct lemon *gp)
             else              prevc = c;
           }
         }
+        if( c==0 ) break;    /* Do not step over the end of the buffer */
       }
       if( c==0 ){
         ErrorMsg(ps.filename,ps.tokenlineno,
-- 
2.43.0


From d1de9b38cd73c0843346474b9bafea196a3b380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 006/104] fix: lemon -u -S dereferenced a null precedence
 symbol

With -u a rule's [TOK] mark was recorded as declared without its symbol.
---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 33e10cd..e28b808 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2423,9 +2423,10 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           "to follow the previous rule.");
         psp->errorcnt++;
       }else{
-        if(!psp->gp->ignorePrec)
+        if(!psp->gp->ignorePrec){
             psp->prevrule->precsym = Symbol_new(lem, x);
             psp->prevrule->precsym_decl = LEMON_TRUE;
+        }
       }
       psp->state = PRECEDENCE_MARK_2;
       break;
-- 
2.43.0


From 06cb043bfee9852b6185b37a09fca63954760bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 007/104] fix: lemon reported unterminated strings at line 0

---
 lemon/lemon.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e28b808..2a9892e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3083,7 +3083,6 @@ void Parse(struct lemon *gp)
   int lineno;
   int c;
   char *cp, *nextcp;
-  int startline = 0;
 
   memset(&ps, '\0', sizeof(ps));
   ps.gp = gp;
@@ -3156,7 +3155,7 @@ void Parse(struct lemon *gp)
         cp++;
       }
       if( c==0 ){
-        ErrorMsg(ps.filename,startline,
+        ErrorMsg(ps.filename,ps.tokenlineno,
             "String starting on this line is not terminated before "
             "the end of the file.");
         ps.errorcnt++;
-- 
2.43.0


From e9ef30795bd938e1ae1d427923b21675cae66ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 008/104] fix: lemon exited 0 when the number of errors was a
 multiple of 256

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 2a9892e..6b828f3 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1768,7 +1768,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
-  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt);
+  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt ? 1 : 0);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
     exit(1);
-- 
2.43.0


From 2eb0338cfb2680b036f5419a513cf7f740f5c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 009/104] fix: lemon overran a fixed buffer with a long grammar
 file name

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6b828f3..6d5f285 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4014,7 +4014,7 @@ PRIVATE void tplt_skip_header(FILE *in, int *lineno)
 ** a pointer to the opened file. */
 PRIVATE FILE *tplt_open(struct lemon *lemp)
 {
-  char buf[1000];
+  char *buf;
   FILE *in;
   char *tpltname;
   char *toFree = 0;
@@ -4038,6 +4038,8 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     return in;
   }
 
+  buf = (char*)malloc( lemonStrlen(lemp->filename) + 4 );
+  MemoryCheck(buf);
   cp = strrchr(lemp->filename,'.');
   if( cp ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
@@ -4055,6 +4057,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     fprintf(stderr,"Can't find the parser driver template file \"%s\".\n",
     lemp->templatename);
     lemp->errorcnt++;
+    free(buf);
     return 0;
   }
   in = fopen(tpltname,"rb");
@@ -4062,6 +4065,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     fprintf(stderr,"Can't open the template file \"%s\".\n",tpltname);
     lemp->errorcnt++;
   }
+  free(buf);
   free(toFree);
   return in;
 }
-- 
2.43.0


From c6d5ccddced24ce9b58aa5b8b9a4d307417edb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 010/104] fix: lemon overran a fixed buffer with long value
 labels

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6d5f285..ea26c2c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4239,7 +4239,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
   char lhsdirect;        /* True if LHS writes directly into stack */
   char used[MAXRHS];     /* True for each RHS element which is used */
   char zLhs[50];         /* Convert the LHS symbol into this string */
-  char zOvwrt[900];      /* Comment that to allow LHS to overwrite RHS */
+  char *zOvwrt = 0;      /* Comment that to allow LHS to overwrite RHS */
   StrAppendBuffer sa_buf;
   memset(&sa_buf, 0, sizeof(sa_buf));
 
@@ -4287,6 +4287,9 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       lemp->errorcnt++;
     }
   }else{
+    zOvwrt = (char*)malloc( lemonStrlen(rp->lhsalias)
+                            + lemonStrlen(rp->rhsalias[0]) + 20 );
+    MemoryCheck(zOvwrt);
     lemon_sprintf(zOvwrt, "/*%s-overwrites-%s*/",
                   rp->lhsalias, rp->rhsalias[0]);
     zSkip = strstr(rp->code, zOvwrt);
@@ -4421,6 +4424,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     rp->noCode = 0;
   }
   free_StrAppendBuffer(&sa_buf);
+  free(zOvwrt);
 
   return rc;
 }
-- 
2.43.0


From 86314d183658326765a07bcf331f85fc26c31347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 011/104] fix: lemon read past the end of action code that ends
 with a label

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ea26c2c..e3efc37 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4357,6 +4357,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       }
       *xp = saved;
     }
+    if( *cp==0 ) break;    /* The code ended with a label */
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
 
-- 
2.43.0


From efb94fb83486170433cfd999499abf7f6d306290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 012/104] fix: lemon overran a fixed buffer comparing long
 token names with the old header

---
 lemon/lemon.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e3efc37..969e58c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5541,7 +5541,7 @@ void ReportHeader(struct lemon *lemp)
   FILE *out, *in;
   const char *prefix;
   char line[LINESIZE];
-  char pattern[LINESIZE];
+  char *pattern;
   int i;
 
   if( lemp->tokenprefix ) prefix = lemp->tokenprefix;
@@ -5550,9 +5550,15 @@ void ReportHeader(struct lemon *lemp)
   if( in ){
     int nextChar;
     for(i=1; i<lemp->nterminal && fgets(line,LINESIZE,in); i++){
+      int isDiff;
+      pattern = (char*)malloc( lemonStrlen(prefix)
+                               + lemonStrlen(lemp->symbols[i]->name) + 100 );
+      MemoryCheck(pattern);
       lemon_sprintf(pattern,"#define %s%-30s %3d\n",
                     prefix,lemp->symbols[i]->name,i);
-      if( strcmp(line,pattern) ) break;
+      isDiff = strcmp(line,pattern);
+      free(pattern);
+      if( isDiff ) break;
     }
     nextChar = fgetc(in);
     fclose(in);
-- 
2.43.0


From 418d1167231f3b17dc9c14829aa7703fef5ec1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 013/104] fix: lemon parsers mishandled rules with more than
 128 right-hand-side symbols

lemon accepts up to MAXRHS (1000) symbols per rule but the generated table of
lengths was made of signed chars.
---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..127e8fd 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -687,7 +687,7 @@ static const YYCODETYPE yyRuleInfoLhs[] = {
 
 /* For rule J, yyRuleInfoNRhs[J] contains the negative of the number
 ** of symbols on the right-hand side of that rule. */
-static const signed char yyRuleInfoNRhs[] = {
+static const short int yyRuleInfoNRhs[] = {
 %%
 };
 
-- 
2.43.0


From 3764c09155c816ab799bd4c2a49dabdd6d2cb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 014/104] fix: lemon parsers with YYTRACKMAXSTACKDEPTH missed
 the entry an empty rule pushes

The peak came out too low and the next shift failed an assertion.
---
 lemon/lempar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 127e8fd..3e477fc 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -905,10 +905,10 @@ void Parse(
       ** enough on the stack to push the LHS value */
       if( yyRuleInfoNRhs[yyruleno]==0 ){
 #ifdef YYTRACKMAXSTACKDEPTH
-        if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
+        if( (int)(yypParser->yytos - yypParser->yystack)+1>yypParser->yyhwm ){
           yypParser->yyhwm++;
           assert( yypParser->yyhwm ==
-                  (int)(yypParser->yytos - yypParser->yystack));
+                  (int)(yypParser->yytos - yypParser->yystack)+1);
         }
 #endif
 #if YYSTACKDEPTH>0 
-- 
2.43.0


From 03e1735ddf79a1cb79cd84a45917e028c63e3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 015/104] fix: lemon's #line directives into its own output
 were off by one

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 969e58c..00a75fb 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5023,7 +5023,7 @@ void ReportTable(
   if( mhflag ){
     fprintf(out,"#if INTERFACE\n"); lineno++;
   }else{
-    fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name);
+    fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name); lineno++;
   }
   for(i=1; i<lemp->nterminal; i++){
     fprintf(out,"#define %s%-30s %2d\n",prefix,lemp->symbols[i]->name,i);
-- 
2.43.0


From 3ead3a6a66b7450ffaa7a2cb8ba8880020629072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 016/104] fix: lemon parsers leaked unused values of token
 classes

The token destructor was not called for an unlabelled A|B or %token_class
symbol on the right-hand side of a rule.
---
 lemon/lemon.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 00a75fb..50ab80c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4154,7 +4154,7 @@ void emit_destructor_code(
 int has_destructor(struct symbol *sp, struct lemon *lemp)
 {
   int ret;
-  if( sp->type==TERMINAL ){
+  if( sp->type!=NONTERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
     ret = lemp->vardest!=0 || sp->destructor!=0;
@@ -4162,6 +4162,16 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   return ret;
 }
 
+/*
+** Return the symbol number to hand to yy_destructor() for the given symbol.
+** All terminals share one destructor, so any member stands for a
+** multi-terminal, whose own number is unknown to the generated parser.
+*/
+PRIVATE int destructor_index(struct symbol *sp)
+{
+  return sp->type==MULTITERMINAL ? sp->subsym[0]->index : sp->index;
+}
+
 /*
 ** Append text to a dynamically allocated string.  If zText is 0 then
 ** reset the string to be empty again.  Always return the complete text
@@ -4266,7 +4276,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     if( has_destructor(rp->rhs[0],lemp) ){
       append_str(&sa_buf, 0,0,0,0);
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-                 rp->rhs[0]->index,1-rp->nrhs);
+                 destructor_index(rp->rhs[0]),1-rp->nrhs);
       rp->codePrefix = Strsafe(lemp, append_str(&sa_buf, 0,0,0,0));
       rp->noCode = 0;
     }
@@ -4406,7 +4416,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       }
     }else if( i>0 && has_destructor(rp->rhs[i],lemp) ){
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-         rp->rhs[i]->index,i-rp->nrhs+1);
+         destructor_index(rp->rhs[i]),i-rp->nrhs+1);
     }
   }
 
-- 
2.43.0


From c56d122e4928ceec9cdd1c5973b5c640f27fc108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 017/104] fix: lemon's unit-rule shortcut skipped the
 destructor of the replaced symbol

translate_code() counts a destructor call as rule code, but only after
CompressTables() had already removed the reduction.
---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 50ab80c..c00ffff 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5693,6 +5693,7 @@ void CompressTables(struct lemon *lemp)
       rp = ap->x.rp;
       if( rp->noCode==0 ) continue;
       if( rp->nrhs!=1 ) continue;
+      if( has_destructor(rp->rhs[0], lemp) ) continue; /* Must be called */
 #if 1
       /* Only apply this optimization to non-terminals.  It would be OK to
       ** apply it to terminal symbols too, but that makes the parser tables
-- 
2.43.0


From 44b9cb42a0d74af15224d13d9104ff287dc6ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 018/104] fix: lemon -y/-Y dropped combinations of rules with
 several multi-terminals

All multi-terminals of a rule were indexed with one counter, which lost rules
and read beyond the end of the shorter ones.
---
 lemon/lemon.c | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c00ffff..0027f1c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3572,7 +3572,8 @@ void Reprint(struct lemon *lemp)
 #endif
 }
 
-/* Print the text of a rule
+/* Print the text of a rule, choosing the mt_idx-th combination of the
+** members of its multi-terminals
 */
 void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
   int i, j;
@@ -3587,8 +3588,10 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
       struct symbol *sp = rp->rhs[i];
       if( sp->type==MULTITERMINAL ){
         //fprintf(out," m_t_%d", sp->id);
-        fprintf(out," %s", sp->subsym[mt_idx]->name);
-        print_symbol_prec_commented(out, sp->subsym[mt_idx]);
+        j = mt_idx % sp->nsubsym;
+        mt_idx /= sp->nsubsym;
+        fprintf(out," %s", sp->subsym[j]->name);
+        print_symbol_prec_commented(out, sp->subsym[j]);
       }else{
         fprintf(out," %s", sp->name);
         print_symbol_prec_commented(out, sp);
@@ -3599,28 +3602,21 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
 }
 
 void rule_print_yacc(FILE *out, struct rule *rp){
-    int i, j;
-    for(i=0; i<rp->nrhs; i++){
+    int i, j, n;
+    /* A rule with multi-terminals stands for one rule per combination */
+    for(i=0, n=1; i<rp->nrhs; i++){
       struct symbol *sp = rp->rhs[i];
-      if( sp->type==MULTITERMINAL ){
-        for(j=0; j<sp->nsubsym; j++){
-          rule_print_yacc0(out, rp, j);
-          if( rp->precsym ) {
-              fprintf(out, " %%prec %s",rp->precsym->name);
-              print_symbol_prec_commented(out, rp->precsym);
-          }
-          fprintf(out, " ;\n");
-        }
-        return;
-      }
+      if( sp->type==MULTITERMINAL ) n *= sp->nsubsym;
       /* if( rp->rhsalias[i] ) fprintf(out,"(%s)",rp->rhsalias[i]); */
     }
-    rule_print_yacc0(out, rp, -1);
-    if( rp->precsym ) {
-        fprintf(out, " %%prec %s",rp->precsym->name);
-        print_symbol_prec_commented(out, rp->precsym);
+    for(j=0; j<n; j++){
+      rule_print_yacc0(out, rp, j);
+      if( rp->precsym ) {
+          fprintf(out, " %%prec %s",rp->precsym->name);
+          print_symbol_prec_commented(out, rp->precsym);
+      }
+      fprintf(out, " ;\n");
     }
-    fprintf(out, " ;\n");
 }
 
 /* Duplicate the input file without comments and without actions
-- 
2.43.0


From 517a54fb294e55194a25daf9c6fa5c1d20703452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 019/104] fix: lemon -g printed a %stack_size line that lemon
 itself rejects

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 0027f1c..a0a6a56 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3520,7 +3520,7 @@ void Reprint(struct lemon *lemp)
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, " .", 0);
   if(lemp->stacksize) {
-    printf("\n%%stack_size %s .\n", lemp->stacksize);
+    printf("\n%%stack_size {%s}\n", lemp->stacksize);
   }
 
   if(lemp->wildcard) {
-- 
2.43.0


From 44ce3c3ec7593ba99ce45688538a87f08cbfaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 020/104] fix: byacc named the wrong symbol in reduce/reduce
 conflict reports

The left-hand side was looked up with the printed rule number, which differs
from the internal one by RULE_NUM_OFFSET.
---
 byacc/verbose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/verbose.c b/byacc/verbose.c
index e2879a5..2377268 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -163,7 +163,7 @@ print_conflicts(byacc_t* S, int state)
                     r1 = number - RULE_NUM_OFFSET;
 		    fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-                            (long)(r1), S->symbol_name[S->rlhs[r1]],
+                            (long)(r1), S->symbol_name[S->rlhs[number]],
                             (long)(r2), S->symbol_name[S->rlhs[p->number]],
 			    S->symbol_name[symbol]);
 		}
-- 
2.43.0


From d63f474d9381c6cfbf08198f3f9dd311ce3cebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 021/104] fix: byacc looped forever formatting a string of more
 than 4095 characters

---
 byacc/mstring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/byacc/mstring.c b/byacc/mstring.c
index a031744..5584729 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -36,9 +36,10 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	va_start(args, fmt);
 	len = (size_t)vsnprintf(S->fs5_buf_ptr, S->fs5_buf_len, fmt, args);
 	va_end(args);
-	if ((changed = (len > S->fs5_buf_len)) != 0)
+	if ((changed = (len >= S->fs5_buf_len)) != 0)
 	{
-	    char *new_ptr = realloc(S->fs5_buf_ptr, (S->fs5_buf_len * 3) / 2);
+	    size_t new_len = len + 1;
+	    char *new_ptr = realloc(S->fs5_buf_ptr, new_len);
 	    if (new_ptr == 0)
 	    {
 		free(S->fs5_buf_ptr);
@@ -46,6 +47,7 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 		return;
 	    }
 	    S->fs5_buf_ptr = new_ptr;
+	    S->fs5_buf_len = new_len;
 	}
     }
     while (changed);
-- 
2.43.0


From 3ea0c91844ba4a6aca7d063c0c4eb8c669d072e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 022/104] fix: byacc -E confused or mangled escaped character
 literals

'\'' and '\\' became the same token, '\a' and '\b' indexed a table with -1 and
octal escapes produced an invalid name.
---
 byacc/reader.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..24eceb6 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4245,27 +4245,27 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
 {
     int ch;
     if(tkname[0] == '\'') {
-        if(tkname[2] == '\'') {
-            ch = tkname[1];
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        }            
-        else if(tkname[3] == '\'') {
-            ch = tkname[2];
+        ch = UCH(tkname[1]);
+        if(ch == '\\') {
+            ch = UCH(tkname[2]);
             switch(ch) {
-                case 'n': ch = '\n'; break;
-                case 't': ch = '\t'; break;
+                case 'a': ch = 7; break;
+                case 'b': ch = '\b'; break;
                 case 'f': ch = '\f'; break;
+                case 'n': ch = '\n'; break;
                 case 'r': ch = '\r'; break;
+                case 't': ch = '\t'; break;
                 case 'v': ch = '\v'; break;
-                case '\\': ch = '\\'; break;
-                default:
-                    ch = -1;
+                case '0': case '1': case '2': case '3':
+                case '4': case '5': case '6': case '7':
+                    ch = (int)strtol(tkname + 2, NULL, 8);
+                    break;
+                default: /* an escaped backslash or quote */
+                    break;
             }
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        } else
-            snprintf(*buf, sizeof(char64_t), "Tk_%*s", (int)strlen(tkname)-2, tkname+1);            
+        }
+        if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
+        else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-- 
2.43.0


From 3396bbd9cde5e25d9660306cbbb17adaa4d63232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 023/104] fix: byacc -E wrote invalid lemon names for string
 tokens

---
 byacc/reader.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 24eceb6..8dae86d 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4268,8 +4268,15 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
         else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
     }
     else if(tkname[0] == '"') {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-            (*buf)[strlen(*buf)-1] = '\0';
+        size_t used = (size_t)snprintf(*buf, sizeof(char64_t), "Tk_");
+        /* spell out what cannot be part of a lemon name */
+        for(++tkname; tkname[0] && tkname[1] && used < sizeof(char64_t)-1; ++tkname) {
+            ch = UCH(tkname[0]);
+            if(isalnum(ch) || ch == '_')
+                used += (size_t)snprintf(*buf + used, sizeof(char64_t) - used, "%c", ch);
+            else
+                used += (size_t)snprintf(*buf + used, sizeof(char64_t) - used, "%s", ygv_ascii_names_st[ch]);
+        }
     }
     else if(tkname[0] == '.' || tkname[0] == '_') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
-- 
2.43.0


From 3543a15c85a2b5b26412274c46c001fa3de5a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 024/104] fix: byacc -S overran its name buffer and truncated
 long symbol names

---
 byacc/reader.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 8dae86d..eac53cc 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4853,21 +4853,13 @@ print_grammar_carburetta(byacc_t* S)
     fprintf(f, "\t;\n"); /*last rule*/
 }
 
-static const char *escape_sql(char64_t *buf, const char *tkname)
+static void print_sql_name(FILE *f, const char *name)
 {
-    int i, i2;
-    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-1) && tkname[i2]; ++i, ++i2) {
-        switch(tkname[i2]) {
-            case '\'':
-                (*buf)[i++] = tkname[i2];
-                (*buf)[i] = tkname[i2];
-                break;
-            default:
-            (*buf)[i] = tkname[i2];
-        }
+    for(; *name; ++name) {
+        if(*name == '\'')
+            putc('\'', f);
+        putc(*name, f);
     }
-    (*buf)[i] = '\0';
-    return *buf;
 }
 
 static void
@@ -4876,7 +4868,6 @@ print_grammar_sql(byacc_t* S)
     int b, i, j, k;
     FILE *f = S->sql_file;
     bucket *bp;
-    char64_t buf;
 
     if (!S->sql_flag)
 	return;
@@ -4902,11 +4893,9 @@ print_grammar_sql(byacc_t* S)
                      "INSERT INTO symbol(id,name,isTerminal)"
                      " VALUES\n");
                 }
-                fprintf(f,
-                   " %s(%d,'%s',%s)\n",
-                   (b>0) ? "," : " ", bp->index, escape_sql(&buf, bp->name),
-                   (bp->class == TERM) ? "TRUE" : "FALSE"
-                );
+                fprintf(f, " %s(%d,'", (b>0) ? "," : " ", bp->index);
+                print_sql_name(f, bp->name);
+                fprintf(f, "',%s)\n", (bp->class == TERM) ? "TRUE" : "FALSE");
                 ++b;
                 break;
         }
-- 
2.43.0


From d8beaf22caa408d74c610238fe312fe186ee00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 025/104] fix: byacc -S wrote invalid SQL when the first rule
 is empty or a mid-rule action

---
 byacc/reader.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index eac53cc..596af71 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -5020,12 +5020,18 @@ print_grammar_sql(byacc_t* S)
                 ++k;
             }
         } else { /* empty rule */
-            if(!skip_rule) fprintf(f,
-              " %s(%d,%d,NULL)",
-              (b > 0) ? "," : " ", i, j++
-            );
-            ++b;
-            if((b%5) == 0) fprintf(f, "\n");
+            if(!skip_rule) {
+                if(b==0) {
+                  fprintf(f,
+                    "INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n");
+                }
+                fprintf(f,
+                  " %s(%d,%d,NULL)",
+                  (b > 0) ? "," : " ", i, j++
+                );
+                ++b;
+                if((b%5) == 0) fprintf(f, "\n");
+            }
         }
         ++k;
     }
-- 
2.43.0


From 2294d041d15c0204892ae93d91196f62f66134ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 026/104] fix: lemon aborted when the start symbol is used on a
 right-hand side

---
 lemon/lemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a0a6a56..45b0e22 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1302,6 +1302,11 @@ static int resolve_conflict(
     apy->type = SSCONFLICT;
     errcnt++;
   }
+  if( apx->type==SHIFT && apy->type==ACCEPT ){
+    /* The start symbol is used on the right-hand side of a rule.  This has
+    ** already been reported as an error. */
+    apy->type = NOT_USED;
+  }else
   if( apx->type==SHIFT && apy->type==REDUCE ){
     spx = apx->sp;
     spy = apy->x.rp->precsym;
-- 
2.43.0


From 4144b363b3d17fb2c7b512248701a6b9aa6c03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 027/104] fix: lemon -r left states without token actions out
 of yy_shift_ofst

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 45b0e22..a7e1c7c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5275,7 +5275,8 @@ void ReportTable(
 
   /* Output the yy_shift_ofst[] table */
   n = lemp->nxstate;
-  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET ) n--;
+  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET
+         && lemp->sorted[n-1]->autoReduce ) n--;
   fprintf(out, "#define YY_SHIFT_COUNT    (%d)\n", n-1); lineno++;
   fprintf(out, "#define YY_SHIFT_MIN      (%d)\n", mnTknOfst); lineno++;
   fprintf(out, "#define YY_SHIFT_MAX      (%d)\n", mxTknOfst); lineno++;
-- 
2.43.0


From 75de0a4c0b816227556585530577b1b675bdd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 028/104] fix: byacc neither counted nor resolved a conflict
 between accepting and reducing

A reduction on the end of the input in the final state conflicts with
accepting.  Only the second and later such reductions were counted, and the
first stayed in the table as the state's default reduction, so the parser for
'%% s: s | A ;' looped forever on the input A A.
---
 byacc/mkpar.c   | 6 ++++++
 byacc/verbose.c | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index 65a0cc0..2c6c043 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -232,6 +232,12 @@ remove_conflicts(byacc_t* S)
 		/* the first parse action for each symbol is the preferred action */
 		pref = p;
 		symbol = p->symbol;
+		if (i == S->final_state && symbol == 0)
+		{
+		    /* a reduction that conflicts with accepting the input */
+		    S->fs8_SRcount++;
+		    p->suppressed = 1;
+		}
 	    }
 	    /* following conditions handle multiple, i.e., conflicting, parse actions */
 	    else if (i == S->final_state && symbol == 0)
diff --git a/byacc/verbose.c b/byacc/verbose.c
index 2377268..e7ef2fa 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -141,8 +141,10 @@ print_conflicts(byacc_t* S, int state)
 		act = SHIFT;
 	    else
 		act = REDUCE;
+	    if (state != S->final_state || symbol != 0)
+		continue;
 	}
-	else if (p->suppressed == 1)
+	if (p->suppressed == 1)
 	{
             r2 = p->number - RULE_NUM_OFFSET;
 	    if (state == S->final_state && symbol == 0)
-- 
2.43.0


From 4c6b836202c20b78ee72ae5921e62d06dfb471d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 029/104] fix: lemon dropped the %nonassoc errors of a state
 with only one reduction

A state whose remaining actions are all the same reduction was folded into the
shift that enters it even where %nonassoc made some lookaheads an error, so
'e ::= e LT e' with %nonassoc LT accepted N LT N LT N.
---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a7e1c7c..d340f36 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5655,7 +5655,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From 909f27bd5e261bcce379a3f3b9ffe8d91f372d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 030/104] fix: byacc overran a fixed array with more than 20
 inherited attribute types

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 596af71..f2b208b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1824,7 +1824,7 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	int c = nextc(S);
 	if (c == EOF)
 	    unexpected_EOF(S);
-	if (c != '<')
+	if (c != '<' || args == MAXARGS)
 	    syntax_error(S, S->lineno, S->line, S->cptr);
 	tags[args++] = get_tag(S);
 	c = nextc(S);
-- 
2.43.0


From 6089910f3c3cbf47d57130491ada585f2f5cd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 031/104] fix: byacc read and wrote outside the inherited
 attribute lists of undeclared or inconsistently used symbols

---
 byacc/reader.c | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index f2b208b..fdb8c13 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1810,6 +1810,26 @@ declare_expect(byacc_t* S, int assoc)
 }
 
 #if defined(YYBTYACC)
+/* record the number of inherited attributes; names and types are added later */
+static void
+set_args(byacc_t* S, bucket *bp, int args)
+{
+    bp->args = args;
+    if (args == 0)
+	return;
+    bp->argnames = CALLOC(sizeof(char *), args);
+    NO_SPACE(bp->argnames);
+    bp->argtags = CALLOC(sizeof(char *), args);
+    NO_SPACE(bp->argtags);
+}
+
+/* type of the i-th inherited attribute, if there is one */
+static char *
+arg_tag(bucket *bp, int i)
+{
+    return (i < bp->args ? bp->argtags[i] : NULL);
+}
+
 static void
 declare_argtypes(byacc_t* S, bucket *bp)
 {
@@ -2284,17 +2304,16 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
     }
     else
     {
-	if ((a->args = argslen) == 0)
+	set_args(S, a, argslen);
+	if (argslen == 0)
 	    return;
-	a->argnames = TMALLOC(char *, argslen);
-	NO_SPACE(a->argnames);
-	a->argtags = TMALLOC(char *, argslen);
-	NO_SPACE(a->argtags);
     }
     if (!args)
 	return;
     for (i = 0; i < argslen; i++)
     {
+	char *unused;
+
 	while (isspace(UCH(*p)))
 	    if (*p++ == '\n')
 		S->rescan_lineno++;
@@ -2315,7 +2334,7 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 		bad_formals(S);
 	    if (redec)
 	    {
-		if (a->argtags[i] != tmp)
+		if (i < a->args && a->argtags[i] != tmp)
 		    arg_type_disagree_warning(S, S->rescan_lineno, i + 1, a->name);
 	    }
 	    else
@@ -2323,7 +2342,7 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 	}
 	else if (!redec)
 	    a->argtags[i] = NULL;
-	if (!(p = parse_id(S, p, &a->argnames[i])))
+	if (!(p = parse_id(S, p, i < a->args ? &a->argnames[i] : &unused)))
 	    bad_formals(S);
 	while (isspace(UCH(*p)))
 	    if (*p++ == '\n')
@@ -2831,14 +2850,14 @@ add_symbol(byacc_t* S)
 
 #if defined(YYBTYACC)
     if (bp->args < 0)
-	bp->args = argslen;
+	set_args(S, bp, argslen);
     if (argslen == 0 && bp->args > 0 && S->pitem[S->nitems - 1] == NULL)
     {
 	int i;
 	if (S->plhs[S->nrules]->args != bp->args)
 	    wrong_number_args_warning(S, "default ", bp->name);
 	for (i = bp->args - 1; i >= 0; i--)
-	    if (S->plhs[S->nrules]->argtags[i] != bp->argtags[i])
+	    if (arg_tag(S->plhs[S->nrules], i) != bp->argtags[i])
 		wrong_type_for_arg_warning(S, i + 1, bp->name);
     }
     else if (bp->args != argslen)
@@ -2847,14 +2866,14 @@ add_symbol(byacc_t* S)
     {
 	char *ap = args;
 	int i = 0;
-	int elide_cnt = can_elide_arg(S, &ap, bp->argtags[0]);
+	int elide_cnt = can_elide_arg(S, &ap, arg_tag(bp, 0));
 
 	if (elide_cnt > argslen)
 	    elide_cnt = 0;
 	if (elide_cnt)
 	{
 	    for (i = 1; i < elide_cnt; i++)
-		if (can_elide_arg(S, &ap, bp->argtags[i]) != elide_cnt - i)
+		if (can_elide_arg(S, &ap, arg_tag(bp, i)) != elide_cnt - i)
 		{
 		    elide_cnt = 0;
 		    break;
@@ -2870,7 +2889,7 @@ add_symbol(byacc_t* S)
 	    i = 0;
 	}
 	for (; i < argslen; i++)
-	    ap = insert_arg_rule(S, ap, bp->argtags[i]);
+	    ap = insert_arg_rule(S, ap, arg_tag(bp, i));
 	free(args);
     }
 #endif /* defined(YYBTYACC) */
-- 
2.43.0


From 784dba48b42e78c53800fa36bb9bd6fd7c2ef310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:15 +0000
Subject: [PATCH 032/104] fix: byacc crashed on untyped inherited attributes

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index fdb8c13..74302e1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -2773,7 +2773,7 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
-	S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
+	S->plhs[rule]->tag = (tag ? cache_tag(S, tag, strlen(tag)) : NULL);
 	S->plhs[rule]->class = ARGUMENT;
     }
     else
-- 
2.43.0


From 8a9633e1927b6176cb6236a73dd5aefec365e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 033/104] fix: byacc overran its list of relations when several
 rules lead to the same goto

---
 byacc/lalr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/byacc/lalr.c b/byacc/lalr.c
index 33c8e21..94f75e1 100644
--- a/byacc/lalr.c
+++ b/byacc/lalr.c
@@ -339,9 +339,10 @@ build_relations(byacc_t* S)
     Value_t *edge;
     Value_t *states;
     Value_t **new_includes;
+    int maxedges = S->fs3_ngotos + 1;
 
     S->fs3_includes = NEW2(S->fs3_ngotos, Value_t *);
-    edge = NEW2(S->fs3_ngotos + 1, Value_t);
+    edge = NEW2(maxedges, Value_t);
     states = NEW2(S->fs3_maxrhs + 1, Value_t);
 
     for (i = 0; i < S->fs3_ngotos; i++)
@@ -383,6 +384,13 @@ build_relations(byacc_t* S)
 		if (ISVAR(*rp))
 		{
 		    stateno = states[--length];
+		    if (nedges >= maxedges)
+		    {
+			/* several rules may lead to the same goto */
+			maxedges = 2 * nedges;
+			edge = TREALLOC(Value_t, edge, maxedges);
+			NO_SPACE(edge);
+		    }
 		    edge[nedges++] = map_goto(S, stateno, *rp);
 		    if (S->nullable[*rp] && length > 0)
 			done_flag = 0;
-- 
2.43.0


From 8e779d259519fb2a0039c47afa8e214e97231fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 034/104] fix: byacc read beyond %destructor code with a null
 character

---
 byacc/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 74302e1..5799062 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3507,6 +3507,8 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 	while (IS_NAME2(c));
 	goto loop;
     }
+    if (c == '\0')		/* cut short by a null character */
+	return msdone(new_code);
     ++codeptr;
     mputc(new_code, c);
     switch (c)
@@ -3525,11 +3527,13 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 	quote = c;
 	for (;;)
 	{
+	    if (*codeptr == '\0')
+		goto loop;
 	    c = *codeptr++;
 	    mputc(new_code, c);
 	    if (c == quote)
 		goto loop;
-	    if (c == '\\')
+	    if (c == '\\' && *codeptr != '\0')
 	    {
 		c = *codeptr++;
 		mputc(new_code, c);
@@ -3544,6 +3548,8 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 	    ++codeptr;
 	    for (;;)
 	    {
+		if (*codeptr == '\0')
+		    goto loop;
 		c = *codeptr++;
 		mputc(new_code, c);
 		if (c == '*' && *codeptr == '/')
-- 
2.43.0


From 052004a189a44ed54ceeb24390cacbf2728e2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:46 +0000
Subject: [PATCH 035/104] fix: lemon took the address of a member of a null
 action in a state without actions

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d340f36..58cfc88 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -579,6 +579,7 @@ static int actioncmp(
 static struct action *Action_sort(
   struct action *ap
 ){
+  if( ap==0 ) return 0;
   ap = (struct action *)msort((char *)ap,(char **)&ap->next,
                               (int(*)(const char*,const char*))actioncmp);
   return ap;
-- 
2.43.0


From ae95cf98549b643483741fd6c775f5c0906ab550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:05 +0000
Subject: [PATCH 036/104] fix: byacc counted the terminating null of a tag as
 part of it and read beyond shorter tags

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 5799062..aca0e8e 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1677,7 +1677,7 @@ get_tag(byacc_t* S)
 
     FREE(t_line);
     S->havetags = 1;
-    return cache_tag(S, S->cache, (size_t)S->cinc);
+    return cache_tag(S, S->cache, (size_t)S->cinc - 1);
 }
 
 #if defined(YYBTYACC)
-- 
2.43.0


From 1d9db8ec63fa21e0f6e84837e0a4f4c23da5190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:12 +0000
Subject: [PATCH 037/104] fix: byacc counted two internal entries as rules in
 the statistics on stderr

---
 byacc/mkpar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index 2c6c043..db4fee3 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -352,7 +352,7 @@ total_conflicts(byacc_t* S)
     fprintf(stderr, "%d terminal symbols\n", S->ntokens);
     fprintf(stderr, "%d non-terminal symbols\n", S->nvars);
     fprintf(stderr, "%d total symbols\n", S->nsyms);
-    fprintf(stderr, "%d rules\n", S->nrules);
+    fprintf(stderr, "%d rules\n", S->nrules - RULE_NUM_OFFSET);
     fprintf(stderr, "%d states\n", S->nstates);
 }
 
-- 
2.43.0


From 69f51bd73d189a9cfacd16ec921539ac2f560f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 038/104] fix: lemon crashed on empty token classes and on
 rules for a token class

---
 lemon/lemon.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 58cfc88..54088aa 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2387,6 +2387,12 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         psp->nrhs = 0;
         psp->lhsalias = 0;
         psp->state = WAITING_FOR_ARROW;
+        if( psp->lhs->type==MULTITERMINAL ){
+          ErrorMsg(psp->filename,psp->tokenlineno,
+            "Token class \"%s\" cannot be the left-hand side of a rule.", x);
+          psp->errorcnt++;
+          psp->state = RESYNC_AFTER_RULE_ERROR;
+        }
       }else if( x[0]=='{' ){
         if( psp->prevrule==0 ){
           ErrorMsg(psp->filename,psp->tokenlineno,
@@ -2888,6 +2894,11 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
       break;
     case WAITING_FOR_CLASS_TOKEN:
       if( x[0]=='.' ){
+        if( psp->tkclass->nsubsym==0 ){
+          ErrorMsg(psp->filename, psp->tokenlineno,
+            "%%token_class \"%s\" has no tokens", psp->tkclass->name);
+          psp->errorcnt++;
+        }
         psp->state = WAITING_FOR_DECL_OR_RULE;
       }else if( ISUPPER(x[0]) || ((x[0]=='|' || x[0]=='/') && ISUPPER(x[1])) ){
         struct symbol *msp = psp->tkclass;
-- 
2.43.0


From c347368ec00f51521adf87a43efeee41854c5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 039/104] fix: lemon aborted on cyclic unit rules

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 54088aa..cd9e623 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5717,7 +5717,7 @@ void CompressTables(struct lemon *lemp)
       /* If we reach this point, it means the optimization can be applied */
       nextap = ap;
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
-      assert( ap2!=0 );
+      if( ap2==0 ) continue;  /* A cycle of such rules leads back here */
       ap->spOpt = ap2->sp;
       ap->type = ap2->type;
       ap->x = ap2->x;
-- 
2.43.0


From 8e4319bc7ce06fe19e807292127e7b3a21169c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 040/104] fix: lemon crashed when %start_symbol names a symbol
 without rules

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index cd9e623..fadf8db 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -964,7 +964,7 @@ void FindStates(struct lemon *lemp)
   /* Find the start symbol */
   if( lemp->start ){
     sp = Symbol_find(lemp, lemp->start);
-    if( sp==0 ){
+    if( sp==0 || sp->rule==0 ){
       ErrorMsg(lemp->filename,0,
         "The specified start symbol \"%s\" is not "
         "in a nonterminal of the grammar.  \"%s\" will be used as the start "
@@ -1232,7 +1232,7 @@ void FindActions(struct lemon *lemp)
   /* Add the accepting token */
   if( lemp->start ){
     sp = Symbol_find(lemp, lemp->start);
-    if( sp==0 ){
+    if( sp==0 || sp->rule==0 ){
       if( lemp->startRule==0 ){
         fprintf(stderr, "internal error on source line %d: no start rule\n",
                 __LINE__);
-- 
2.43.0


From 3a97143726a7692796b05b8ba8c7f211d3a0570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 041/104] fix: lemon looped forever on cyclic unit rules

---
 lemon/lemon.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index fadf8db..bdabd94 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5615,10 +5615,10 @@ void ReportHeader(struct lemon *lemp)
 void CompressTables(struct lemon *lemp)
 {
   struct state *stp;
-  struct action *ap, *ap2, *nextap;
+  struct action *ap, *ap2, *nextap, *apPrev = 0;
   struct rule *rp, *rp2, *rbest;
   int nbest, n;
-  int i;
+  int i, nChain = 0;
   int usesWildcard;
 
   for(i=0; i<lemp->nstate; i++){
@@ -5703,6 +5703,10 @@ void CompressTables(struct lemon *lemp)
     stp = lemp->sorted[i];
     for(ap=stp->ap; ap; ap=nextap){
       nextap = ap->next;
+      if( ap!=apPrev ){
+        apPrev = ap;
+        nChain = 0;
+      }
       if( ap->type!=SHIFTREDUCE ) continue;
       rp = ap->x.rp;
       if( rp->noCode==0 ) continue;
@@ -5715,9 +5719,9 @@ void CompressTables(struct lemon *lemp)
       if( ap->sp->index<lemp->nterminal ) continue;
 #endif
       /* If we reach this point, it means the optimization can be applied */
-      nextap = ap;
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
-      if( ap2==0 ) continue;  /* A cycle of such rules leads back here */
+      if( ap2==0 || nChain++>lemp->nrule ) continue;  /* A cycle of rules */
+      nextap = ap;
       ap->spOpt = ap2->sp;
       ap->type = ap2->type;
       ap->x = ap2->x;
-- 
2.43.0


From 82fedf595ee383e93164065233db225cc1a9033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 042/104] fix: byacc's report left out or misnamed conflicts
 whose preferred action lost to a later one

---
 byacc/defs.h    |  1 +
 byacc/mkpar.c   |  2 ++
 byacc/verbose.c | 23 +++++++----------------
 3 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index d0f441d..f81e092 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -300,6 +300,7 @@ struct action
     char action_code;
     Assoc_t assoc;
     char suppressed;
+    struct action *winner;	/* action preferred in an unresolved conflict */
 };
 
 /*  the structure used to store parse/lex parameters  */
diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index db4fee3..eb6b294 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -278,6 +278,7 @@ remove_conflicts(byacc_t* S)
 		{
 		    S->fs8_SRcount++;
 		    p->suppressed = 1;
+		    p->winner = pref;
 		    StartBacktrack(pref);
 		}
 	    }
@@ -304,6 +305,7 @@ remove_conflicts(byacc_t* S)
 		{
 		    S->fs5_RRcount++;
 		    p->suppressed = 1;
+		    p->winner = pref;
 		    StartBacktrack(pref);
 		}
 	    }
diff --git a/byacc/verbose.c b/byacc/verbose.c
index e7ef2fa..836ee07 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -127,25 +127,16 @@ print_conflicts(byacc_t* S, int state)
 
     act = 0;			/* not shift/reduce... */
     number = -1;
-    symbol = -1;
     for (p = S->parser[state]; p; p = p->next)
     {
-	if (p->suppressed == 2)
-	    continue;
-
-	if (p->symbol != symbol)
-	{
-	    symbol = p->symbol;
-	    number = p->number;
-	    if (p->action_code == SHIFT)
-		act = SHIFT;
-	    else
-		act = REDUCE;
-	    if (state != S->final_state || symbol != 0)
-		continue;
-	}
-	if (p->suppressed == 1)
+	symbol = p->symbol;
+	if (p->winner != 0 || (state == S->final_state && symbol == 0))
 	{
+	    if (p->winner != 0)
+	    {
+		number = p->winner->number;
+		act = p->winner->action_code;
+	    }
             r2 = p->number - RULE_NUM_OFFSET;
 	    if (state == S->final_state && symbol == 0)
 	    {
-- 
2.43.0


From 1c0529b50cb100b5b567f8ac20d27aea1a7a4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 043/104] fix: byacc -B merged an action that sets $<tag>$ with
 the one after it

---
 byacc/reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index aca0e8e..14e3ee3 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -2983,6 +2983,9 @@ copy_action(byacc_t* S)
 	    {
 		fprintf(f, "yyval.%s", tag);
 		++S->cptr;
+#if defined(YYBTYACC)
+		haveyyval = 1;
+#endif
 		FREE(d_line);
 		goto loop;
 	    }
-- 
2.43.0


From 54d09b532c2789eab94d61e84d0fa043ef56ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:04 +0000
Subject: [PATCH 044/104] fix: byacc -B never tried an action that precedence
 preferred to one of several conflicting actions

---
 byacc/mkpar.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index eb6b294..da4a244 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -8,9 +8,12 @@
 #define MaySuppress(p)		((S->backtrack ? ((p)->suppressed <= 1) : (p)->suppressed == 0))
     /* suppress the preferred action => enable backtracking */
 #define StartBacktrack(p)	if (S->backtrack && (p) != NULL && NotSuppressed(p)) (p)->suppressed = 1
+/* an action preferred to one that is tried in a conflict has to be tried too */
+#define ReplaceInTrial(p,q)	if ((p)->suppressed == 1) StartBacktrack(q)
 #else
 #define MaySuppress(p)		((p)->suppressed == 0)
 #define StartBacktrack(p)	/*nothing */
+#define ReplaceInTrial(p,q)	/*nothing */
 #endif
 
 static action *add_reduce(byacc_t* S, action *actions, int ruleno, int symbol);
@@ -252,6 +255,7 @@ remove_conflicts(byacc_t* S)
 		{
 		    if (pref->prec < p->prec)
 		    {
+			ReplaceInTrial(pref, p);
 			pref->suppressed = 2;
 			pref = p;
 		    }
@@ -261,6 +265,7 @@ remove_conflicts(byacc_t* S)
 		    }
 		    else if (pref->assoc == LEFT)
 		    {
+			ReplaceInTrial(pref, p);
 			pref->suppressed = 2;
 			pref = p;
 		    }
@@ -290,6 +295,7 @@ remove_conflicts(byacc_t* S)
                     {
                         if (pref->prec < p->prec)
                         {
+                            ReplaceInTrial(pref, p);
                             pref->suppressed = 2;
                             pref = p;
                             b = 1;
-- 
2.43.0


From 0bb7ff63d3e2cbbfb602617a81aefa8f6985a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 045/104] fix: lemon: %default_destructor uses the datatype of
 each nonterminal

---
 lemon/lemon.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index bdabd94..4607185 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5421,23 +5421,29 @@ void ReportTable(
     }
   }
   if( lemp->vardest ){
-    struct symbol *dflt_sp = 0;
+    char *seen = (char*)calloc(lemp->nsymbol, 1);
     int once = 1;
+    MemoryCheck(seen);
     for(i=0; i<lemp->nsymbol; i++){
       struct symbol *sp = lemp->symbols[i];
       if( sp==0 || sp->type==TERMINAL ||
-          sp->index<=0 || sp->destructor!=0 ) continue;
+          sp->index<=0 || sp->destructor!=0 || seen[i] ) continue;
       if( once ){
         fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
         once = 0;
       }
-      fprintf(out,"    case %d: /* %s */\n", sp->index, sp->name); lineno++;
-      dflt_sp = sp;
-    }
-    if( dflt_sp!=0 ){
-      emit_destructor_code(out,dflt_sp,lemp,&lineno);
+      /* One copy of the code for each datatype that $$ can have */
+      for(j=i; j<lemp->nsymbol; j++){
+        struct symbol *sp2 = lemp->symbols[j];
+        if( sp2==0 || sp2->type==TERMINAL ||
+            sp2->destructor!=0 || sp2->dtnum!=sp->dtnum ) continue;
+        fprintf(out,"    case %d: /* %s */\n", sp2->index, sp2->name); lineno++;
+        seen[j] = 1;
+      }
+      emit_destructor_code(out,sp,lemp,&lineno);
+      fprintf(out,"      break;\n"); lineno++;
     }
-    fprintf(out,"      break;\n"); lineno++;
+    free(seen);
   }
   for(i=0; i<lemp->nsymbol; i++){
     struct symbol *sp = lemp->symbols[i];
-- 
2.43.0


From 704e875479b19999bcba6ed5b3701a9f8a572b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 046/104] fix: lemon: no %default_destructor for the error
 symbol, whose value is the token

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4607185..bb4a706 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4170,7 +4170,7 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   if( sp->type!=NONTERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
-    ret = lemp->vardest!=0 || sp->destructor!=0;
+    ret = (lemp->vardest!=0 && sp!=lemp->errsym) || sp->destructor!=0;
   }
   return ret;
 }
@@ -5435,7 +5435,7 @@ void ReportTable(
       /* One copy of the code for each datatype that $$ can have */
       for(j=i; j<lemp->nsymbol; j++){
         struct symbol *sp2 = lemp->symbols[j];
-        if( sp2==0 || sp2->type==TERMINAL ||
+        if( sp2==0 || sp2->type==TERMINAL || sp2==lemp->errsym ||
             sp2->destructor!=0 || sp2->dtnum!=sp->dtnum ) continue;
         fprintf(out,"    case %d: /* %s */\n", sp2->index, sp2->name); lineno++;
         seen[j] = 1;
-- 
2.43.0


From 1ff4a0fb821507eb674e909c257afdde7822038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 047/104] fix: lemon: @X of a label shared by both sides of a
 rule left the '@' in the code

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index bb4a706..ea1353f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4346,7 +4346,8 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       for(xp= &cp[1]; ISALNUM(*xp) || *xp=='_'; xp++);
       saved = *xp;
       *xp = 0;
-      if( rp->lhsalias && strcmp(cp,rp->lhsalias)==0 ){
+      if( rp->lhsalias && strcmp(cp,rp->lhsalias)==0
+       && !(cp!=rp->code && cp[-1]=='@') ){
         append_str(&sa_buf, zLhs,0,0,0);
         cp = xp;
         lhsused = 1;
-- 
2.43.0


From 55f8cd42575674f00e92a3fbaff2dc087bf17587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 048/104] fix: lemon: no unit-rule shortcut over the error
 symbol

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ea1353f..0a392cc 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5719,6 +5719,7 @@ void CompressTables(struct lemon *lemp)
       if( rp->noCode==0 ) continue;
       if( rp->nrhs!=1 ) continue;
       if( has_destructor(rp->rhs[0], lemp) ) continue; /* Must be called */
+      if( rp->rhs[0]==lemp->errsym ) continue; /* Must be on the stack */
 #if 1
       /* Only apply this optimization to non-terminals.  It would be OK to
       ** apply it to terminal symbols too, but that makes the parser tables
-- 
2.43.0


From 2454b955950587b4079aa38a796843ee68f4572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 049/104] fix: lempar: end of input was discarded without
 %parse_failure during recovery

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 3e477fc..0d9d32c 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -971,7 +971,7 @@ void Parse(
         yy_syntax_error(yypParser,yymajor,yyminor);
       }
       yymx = yypParser->yytos->major;
-      if( yymx==YYERRORSYMBOL || yyerrorhit ){
+      if( yymajor!=0 && (yymx==YYERRORSYMBOL || yyerrorhit) ){
 #ifndef NDEBUG
         if( yyTraceFILE ){
           fprintf(yyTraceFILE,"%sDiscard input token %s\n",
-- 
2.43.0


From 15ebba10741eebeac152768592056c58c5186a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 050/104] fix: lempar: the first error of a parse after a
 %parse_failure went unreported

---
 lemon/lemon.c  | 2 +-
 lemon/lempar.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 0a392cc..c962c1c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5427,7 +5427,7 @@ void ReportTable(
     MemoryCheck(seen);
     for(i=0; i<lemp->nsymbol; i++){
       struct symbol *sp = lemp->symbols[i];
-      if( sp==0 || sp->type==TERMINAL ||
+      if( sp==0 || sp->type==TERMINAL || sp==lemp->errsym ||
           sp->index<=0 || sp->destructor!=0 || seen[i] ) continue;
       if( once ){
         fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
diff --git a/lemon/lempar.c b/lemon/lempar.c
index 0d9d32c..d243c12 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -993,7 +993,7 @@ void Parse(
 #ifndef YYNOERRORRECOVERY
           yypParser->yyerrcnt = -1;
 #endif
-          yymajor = YYNOCODE;
+          break;
         }else if( yymx!=YYERRORSYMBOL ){
           yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor);
         }
-- 
2.43.0


From b53ee56fc6253f10dd37e61e9d380cd3884a8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:30 +0000
Subject: [PATCH 051/104] fix: lemon: reductions folded into the default lost
 to a wildcard that reduces by another rule

---
 lemon/lemon.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c962c1c..995d59c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5655,6 +5655,15 @@ void CompressTables(struct lemon *lemp)
       }
     }
 
+    /* A token that has no entry of its own is looked up as the wildcard
+    ** before the default is taken. */
+    for(ap=stp->ap; ap; ap=ap->next){
+      if( ap->sp!=lemp->wildcard ) continue;
+      if( ap->type==ERROR || (ap->type==REDUCE && ap->x.rp!=rbest) ){
+        usesWildcard = 1;
+      }
+    }
+
     /* Do not make a default if the number of rules to default
     ** is not at least 1 or if the wildcard token is a possible
     ** lookahead.
-- 
2.43.0


From 5b96f3f8586a2d9b3403220830bc4d4683e0aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:24 +0000
Subject: [PATCH 052/104] fix: lemon: a reduction folded into the default lost
 to the action of the token's fallback

---
 lemon/lemon.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 995d59c..3c8ecc2 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5612,6 +5612,24 @@ void ReportHeader(struct lemon *lemp)
   return;
 }
 
+/* True if the fallback of sp has an action in stp other than to reduce by
+** the rule rbest.
+*/
+static int fallback_acts(
+  struct state *stp,
+  struct symbol *sp,
+  struct rule *rbest
+){
+  struct action *ap;
+  if( sp->fallback==0 ) return 0;
+  for(ap=stp->ap; ap; ap=ap->next){
+    if( ap->sp!=sp->fallback ) continue;
+    if( ap->type==SHIFT || ap->type==ERROR ) return 1;
+    if( ap->type==REDUCE && ap->x.rp!=rbest ) return 1;
+  }
+  return 0;
+}
+
 /* Reduce the size of the action tables, if possible, by making use
 ** of defaults.
 **
@@ -5671,15 +5689,18 @@ void CompressTables(struct lemon *lemp)
     if( nbest<1 || usesWildcard ) continue;
 
 
-    /* Combine matching REDUCE actions into a single default */
+    /* Combine matching REDUCE actions into a single default.  Keep those on
+    ** tokens whose fallback would find another action first. */
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) break;
+      if( ap->type==REDUCE && ap->x.rp==rbest
+       && !fallback_acts(stp, ap->sp, rbest) ) break;
     }
-    assert( ap );
-    ap->sp = Symbol_new(lemp, "{default}");
-    for(ap=ap->next; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) ap->type = NOT_USED;
+    if( ap==0 ) continue;
+    for(ap2=ap->next; ap2; ap2=ap2->next){
+      if( ap2->type==REDUCE && ap2->x.rp==rbest
+       && !fallback_acts(stp, ap2->sp, rbest) ) ap2->type = NOT_USED;
     }
+    ap->sp = Symbol_new(lemp, "{default}");
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-- 
2.43.0


From 2192a5f9585a574e5dd88e2b68c5e15ed2fb7904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:33 +0000
Subject: [PATCH 053/104] fix: lemon: evaluate all operands of %if expressions
 and reject incomplete ones

A && B || C with A undefined was false whatever C is, because the
evaluation stopped at the &&.  Expressions without an operand after the
last operator, empty parentheses and an unclosed parenthesis were
accepted.
---
 lemon/lemon.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3c8ecc2..f177e72 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2929,7 +2929,9 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
 */
 static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
   int neg = 0;
-  int res = 0;
+  int res = 0;        /* Value of the current || operand */
+  int resOr = 0;      /* True if an earlier || operand is true */
+  int resAnd = 1;     /* Value of the && operands before the current one */
   int okTerm = 1;
   int i;
   for(i=0; z[i]!=0; i++){
@@ -2941,14 +2943,15 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     if( z[i]=='|' && z[i+1]=='|' ){
       if( okTerm ) goto pp_syntax_error;
-      if( res ) return 1;
+      resOr = resOr || (resAnd && res);
+      resAnd = 1;
       i++;
       okTerm = 1;
       continue;
     }
     if( z[i]=='&' && z[i+1]=='&' ){
       if( okTerm ) goto pp_syntax_error;
-      if( !res ) return 0;
+      resAnd = resAnd && res;
       i++;
       okTerm = 1;
       continue;
@@ -2973,11 +2976,12 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
           }
         }else if( z[k]=='(' ){
           n++;
-        }else if( z[k]==0 ){
-          i = k;
-          goto pp_syntax_error;
         }
       }
+      if( n>0 ){
+        i = k;
+        goto pp_syntax_error;
+      }
       if( neg ){
         res = !res;
         neg = 0;
@@ -3011,7 +3015,8 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     goto pp_syntax_error;
   }
-  return res;
+  if( okTerm ) goto pp_syntax_error;
+  return resOr || (resAnd && res);
 
 pp_syntax_error:
   if( lineno>0 ){
-- 
2.43.0


From 3f70fec001d3e93600ad265e0e7f18400e98c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:02 +0000
Subject: [PATCH 054/104] fix: lemon: report %else and %endif without %ifdef,
 and every missing %endif

A missing %endif was only noticed when the text it ends was excluded.
---
 lemon/lemon.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f177e72..20e9c9b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3039,10 +3039,19 @@ static void preprocess_input(struct lemon *lem, char *z){
   int start = 0;
   int lineno = 1;
   int start_lineno = 1;
+  int depth = 0;          /* Number of open conditionals not inside an
+                          ** excluded part */
+  int outer_lineno = 1;   /* Line of the outermost open conditional */
   for(i=0; z[i]; i++){
     if( z[i]=='\n' ) lineno++;
     if( z[i]!='%' || (i>0 && z[i-1]!='\n') ) continue;
-    if( strncmp(&z[i],"%endif",6)==0 && ISSPACE(z[i+6]) ){
+    if( strncmp(&z[i],"%endif",6)==0
+          && (ISSPACE(z[i+6]) || z[i+6]==0) ){
+      if( depth==0 ){
+        fprintf(stderr,"%%endif without %%ifdef on line %d\n", lineno);
+        exit(1);
+      }
+      if( exclude<=1 ) depth--;
       if( exclude ){
         exclude--;
         if( exclude==0 ){
@@ -3051,6 +3060,10 @@ static void preprocess_input(struct lemon *lem, char *z){
       }
       for(j=i; z[j] && z[j]!='\n'; j++) z[j] = ' ';
     }else if( strncmp(&z[i],"%else",5)==0 && ISSPACE(z[i+5]) ){
+      if( depth==0 ){
+        fprintf(stderr,"%%else without %%ifdef on line %d\n", lineno);
+        exit(1);
+      }
       if( exclude==1){
         exclude = 0;
         for(j=start; j<i; j++) if( z[j]!='\n' ) z[j] = ' ';
@@ -3068,6 +3081,7 @@ static void preprocess_input(struct lemon *lem, char *z){
       }else{
         int isNot;
         int iBool;
+        if( depth++==0 ) outer_lineno = lineno;
         for(j=i; z[j] && !ISSPACE(z[j]); j++){}
         iBool = j;
         isNot = (j==i+7);
@@ -3089,6 +3103,10 @@ static void preprocess_input(struct lemon *lem, char *z){
     fprintf(stderr,"unterminated %%ifdef starting on line %d\n", start_lineno);
     exit(1);
   }
+  if( depth>0 ){
+    fprintf(stderr,"unterminated %%ifdef starting on line %d\n", outer_lineno);
+    exit(1);
+  }
 }
 
 /* In spite of its name, this function is really a scanner.  It read
-- 
2.43.0


From e5fbe0865865d25883e8a98dae3932e89cf7ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 055/104] fix: byacc: fail when a file could not be read or
 written

Errors while writing the output and temporary files went unnoticed and
byacc exited 0 with truncated files.
---
 byacc/main.c   | 17 ++++++++++++++++-
 byacc/output.c | 18 +++++++++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index c28f85c..4d8e7ff 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -42,10 +42,14 @@ static char oflag;
 	if (fp != 0) { \
 	    FILE *use = fp; \
 	    fp = 0; \
-	    fclose(use); \
+	    if (ferror(use)) \
+		io_failed = 1; \
+	    if (fclose(use) != 0) \
+		io_failed = 1; \
 	}
 
 static int got_intr = 0;
+static int io_failed = 0;
 
 void
 done(byacc_t* S, int k)
@@ -55,6 +59,10 @@ done(byacc_t* S, int k)
     DO_CLOSE(S->ebnf_file);
     DO_CLOSE(S->lemon_file);
     DO_CLOSE(S->naked_file);
+    DO_CLOSE(S->nakedq_file);
+    DO_CLOSE(S->unicc_file);
+    DO_CLOSE(S->carburetta_file);
+    DO_CLOSE(S->sql_file);
     if (S->iflag)
 	DO_CLOSE(S->externs_file);
     if (S->rflag)
@@ -70,6 +78,13 @@ done(byacc_t* S, int k)
     if (got_intr)
 	_exit(EXIT_FAILURE);
 
+    if (io_failed && k == EXIT_SUCCESS)
+    {
+	fprintf(stderr, "%s: f - a file could not be read or written\n",
+		S->myname);
+	k = 2;
+    }
+
 #ifdef NO_LEAKS
     DO_FREE(S->input_file_name);
 
diff --git a/byacc/output.c b/byacc/output.c
index 2867e5a..2cb7f5c 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -11,6 +11,18 @@
 #define PER_STATE 2
 #endif
 
+/*
+ * rewind() clears the stream's error indicator, so check that everything was
+ * written before reading a temporary file.
+ */
+static void
+rewind_tmpfile(byacc_t* S, FILE * fp)
+{
+    if (fflush(fp) != 0 || ferror(fp))
+	fatal(S, "cannot write a temporary file");
+    rewind(fp);
+}
+
 static void
 putc_code(byacc_t* S, FILE * fp, int c)
 {
@@ -1269,7 +1281,7 @@ output_defines(byacc_t* S, FILE * fp)
 	{
 	    if (S->union_file != 0)
 	    {
-		rewind(S->union_file);
+		rewind_tmpfile(S, S->union_file);
 		while ((c = getc(S->union_file)) != EOF)
 		    putc_code(S, fp, c);
 	    }
@@ -1294,7 +1306,7 @@ output_stored_text(byacc_t* S, FILE * fp)
 
     if (S->text_file == NULL)
 	open_error(S, "text_file");
-    rewind(S->text_file);
+    rewind_tmpfile(S, S->text_file);
     in = S->text_file;
     if ((c = getc(in)) == EOF)
 	return;
@@ -1664,7 +1676,7 @@ output_semantic_actions(byacc_t* S)
     int state;
     char line_state[20];
 
-    rewind(S->action_file);
+    rewind_tmpfile(S, S->action_file);
     if ((c = getc(S->action_file)) == EOF)
 	return;
 
-- 
2.43.0


From abfc9a52024be3f8d079fb646ad705d9c8deb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 056/104] fix: lemon: fail when an output file could not be
 written

Write errors went unnoticed and lemon exited 0 with truncated files.
---
 lemon/lemon.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 20e9c9b..4be6432 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1687,6 +1687,15 @@ static struct rule *Rule_sort(struct rule *rp){
 /* forward reference */
 static const char *minimum_size_type(int lwr, int upr, int *pnByte);
 
+/* Complain if anything could not be written to standard output.
+*/
+static void StdoutCheck(struct lemon *lemp){
+  if( fflush(stdout)!=0 || ferror(stdout) ){
+    fprintf(stderr,"Can't write to standard output.\n");
+    lemp->errorcnt++;
+  }
+}
+
 /* Print a single line of the "Parser Stats" output
 */
 static void stats_line(const char *zLabel, int iValue){
@@ -1774,6 +1783,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
+  if( lem.printPreprocessed ) StdoutCheck(&lem);
   if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt ? 1 : 0);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
@@ -1886,6 +1896,7 @@ int main(int argc, char **argv){
     stats_line("lookahead table entries", lem.nlookaheadtab);
     stats_line("total table size (bytes)", lem.tablesize);
   }
+  StdoutCheck(&lem);
   int nexpect = lem.expect ? atoi(lem.expect) : 0;
 
   if( lem.nconflict != nexpect ){
@@ -3392,6 +3403,18 @@ PRIVATE FILE *file_open(
   return fp;
 }
 
+/* Close a stream opened by file_open().  Complain if anything could not be
+** written to it.
+*/
+PRIVATE void file_close(struct lemon *lemp, FILE *fp)
+{
+  int err = ferror(fp);
+  if( fclose(fp)!=0 || err ){
+    fprintf(stderr,"Can't write file \"%s\".\n",lemp->outname);
+    lemp->errorcnt++;
+  }
+}
+
 static int
 get_symbol_prec_chr(struct symbol *sym)
 {
@@ -3923,7 +3946,7 @@ void ReportOutput(struct lemon *lemp)
     }
     fprintf(fp,"\n");
   }
-  fclose(fp);
+  file_close(lemp, fp);
   return;
 }
 
@@ -4985,7 +5008,7 @@ void ReportSQL(
     "COMMIT;\n"
     "--select * from grammar_view;\n"
   );
-  fclose(sql);
+  file_close(lemp, sql);
 }
 
 /* Generate C source code for the parser */
@@ -5584,8 +5607,12 @@ void ReportTable(
   tplt_print(out,lemp,lemp->extracode,&lineno);
 
   acttab_free(pActtab);
+  if( ferror(in) ){
+    fprintf(stderr,"Can't read the parser driver template file.\n");
+    lemp->errorcnt++;
+  }
   fclose(in);
-  fclose(out);
+  file_close(lemp, out);
   return;
 }
 
@@ -5630,7 +5657,7 @@ void ReportHeader(struct lemon *lemp)
     }
     //fprintf(out,"#define %s%-30s %3d\n", prefix, "LEMON_LAST_TOKEN", i);
     fprintf(out," %s%s = %3d\n};\n", prefix, "LEMON_LAST_TOKEN", i);
-    fclose(out);
+    file_close(lemp, out);
   }
   return;
 }
-- 
2.43.0


From 0d31fd8ac2d2c75b42e06d7436e8d18c0b598d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 057/104] fix: byacc: remove the temporary file when it cannot
 be opened as a stream

---
 byacc/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/byacc/main.c b/byacc/main.c
index 4d8e7ff..6625829 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -829,6 +829,11 @@ open_tmpfile(byacc_t* S, const char *label)
 	}
 	else
 	{
+	    if (fd >= 0)
+	    {
+		(void)close(fd);
+		(void)unlink(name);
+	    }
 	    FREE(name);
 	}
 	(void)umask(save_umask);
-- 
2.43.0


From 6617b9fc24064eba663f8220d93a08c80547182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 058/104] fix: byacc: use of the freed file prefix in the graph
 with -g and -o

---
 byacc/main.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index 6625829..67ea5f0 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -33,6 +33,7 @@ static MY_TMPFILES *my_tmpfiles;
 #endif /* USE_MKSTEMP */
 
 static char oflag;
+static char made_prefix;	/* file_prefix was made from the -o option */
 
 /*
  * Since fclose() is called via the signal handler, it might die.  Don't loop
@@ -127,6 +128,9 @@ done(byacc_t* S, int k)
     if (S->gflag)
 	DO_FREE(S->graph_file_name);
 
+    if (made_prefix)
+	DO_FREE(S->file_prefix);
+
     lr0_leaks(S);
     lalr_leaks(S);
     mkpar_leaks(S);
@@ -624,6 +628,7 @@ create_file_names(byacc_t* S)
 	S->file_prefix = TMALLOC(char, len + 1);
 	NO_SPACE(S->file_prefix);
 	strncpy(S->file_prefix, S->output_file_name, len)[len] = 0;
+	made_prefix = 1;
     }
     else
 	len = strlen(S->file_prefix);
@@ -697,10 +702,6 @@ create_file_names(byacc_t* S)
 	CREATE_FILE_NAME(S->sql_file_name, SQL_SUFFIX);
     }
 
-    if (suffix != NULL)
-    {
-	FREE(S->file_prefix);
-    }
 }
 
 #if USE_MKSTEMP
-- 
2.43.0


From 46d7fd6fef77543a0c88559a88d34833c95e0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 059/104] fix: lemon: crash when the -S file cannot be opened

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4be6432..94b25e6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4756,6 +4756,7 @@ void ReportSQL(
   int b, i, j, first_symbol;
 
   sql = file_open(lemp, ".sql", "wb");
+  if( sql==0 ) return;
 
   fprintf(sql,
     "BEGIN;\n"
-- 
2.43.0


From 00ea2ab204182ca537821caeccde74813ad78acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:21 +0000
Subject: [PATCH 060/104] fix: lemon: compare an existing header with what
 would be written now

The comparison was still with the #define lines of earlier versions, so
an empty or old header was taken for an up to date one.
---
 lemon/lemon.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 94b25e6..e1e7304 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5631,20 +5631,28 @@ void ReportHeader(struct lemon *lemp)
   in = file_open(lemp,".h","rb");
   if( in ){
     int nextChar;
-    for(i=1; i<lemp->nterminal && fgets(line,LINESIZE,in); i++){
+    for(i=0; i<=lemp->nterminal+1 && fgets(line,LINESIZE,in); i++){
       int isDiff;
+      const char *name = i>0 && i<lemp->nterminal ? lemp->symbols[i]->name : "";
       pattern = (char*)malloc( lemonStrlen(prefix)
-                               + lemonStrlen(lemp->symbols[i]->name) + 100 );
+                               + lemonStrlen(name) + 100 );
       MemoryCheck(pattern);
-      lemon_sprintf(pattern,"#define %s%-30s %3d\n",
-                    prefix,lemp->symbols[i]->name,i);
+      if( i==0 ){
+        lemon_sprintf(pattern,"enum %sLemonEnum {\n",prefix);
+      }else if( i<lemp->nterminal ){
+        lemon_sprintf(pattern," %s%s = %3d,\n",prefix,name,i);
+      }else if( i==lemp->nterminal ){
+        lemon_sprintf(pattern," %s%s = %3d\n",prefix,"LEMON_LAST_TOKEN",i);
+      }else{
+        lemon_sprintf(pattern,"};\n");
+      }
       isDiff = strcmp(line,pattern);
       free(pattern);
       if( isDiff ) break;
     }
     nextChar = fgetc(in);
     fclose(in);
-    if( i==lemp->nterminal && nextChar==EOF ){
+    if( i==lemp->nterminal+2 && nextChar==EOF ){
       /* No change in the file.  Don't rewrite it. */
       return;
     }
-- 
2.43.0


From 0b35fcf4ef08ba4f19083f7179afc41b5c44e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:19 +0000
Subject: [PATCH 061/104] fix: lemon: do not order conflicting actions by their
 addresses

The order of the conflicts in the report depended on where malloc had
put the actions.
---
 lemon/lemon.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e1e7304..a161e58 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -569,6 +569,22 @@ static int actioncmp(
   if( rc==0 && (ap1->type==REDUCE || ap1->type==SHIFTREDUCE) ){
     rc = ap1->x.rp->index - ap2->x.rp->index;
   }
+  if( rc==0 ){
+    switch( ap1->type ){
+      case SRCONFLICT:
+      case RRCONFLICT:
+      case RD_RESOLVED:
+        rc = ap1->x.rp->index - ap2->x.rp->index;
+        break;
+      case SHIFT:
+      case SSCONFLICT:
+      case SH_RESOLVED:
+        rc = ap1->x.stp->statenum - ap2->x.stp->statenum;
+        break;
+      default:
+        break;
+    }
+  }
   if( rc==0 ){
     rc = (int) (ap2 - ap1);
   }
-- 
2.43.0


From 9188e09157ea8e6d26f6bc1b15c6ccc4ae56b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:58 +0000
Subject: [PATCH 062/104] fix: lemon: -g, -y, -Y and -S ignored %start_symbol

They named the left-hand side of the first rule as the start symbol.
---
 lemon/lemon.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a161e58..f597d09 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3431,6 +3431,16 @@ PRIVATE void file_close(struct lemon *lemp, FILE *fp)
   }
 }
 
+/* The start symbol of the grammar: the one %start_symbol names or else the
+** left-hand side of the first rule.
+*/
+PRIVATE struct symbol *StartSymbol(struct lemon *lemp)
+{
+  struct symbol *sp = 0;
+  if( lemp->start ) sp = Symbol_find(lemp, lemp->start);
+  return sp ? sp : lemp->startRule->lhs;
+}
+
 static int
 get_symbol_prec_chr(struct symbol *sym)
 {
@@ -3606,7 +3616,7 @@ void Reprint(struct lemon *lemp)
     printf("\n%%wildcard %s .\n", lemp->wildcard->name);
   }
 
-  printf("\n%%start_symbol %s\n\n", lemp->startRule->lhs->name);
+  printf("\n%%start_symbol %s\n\n", StartSymbol(lemp)->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
     if(prev_rp && strcmp(prev_rp->lhs->name, rp->lhs->name))
@@ -3709,7 +3719,7 @@ void Reprint_yacc(struct lemon *lemp)
   char *idList;
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, "", 1);
-  printf("\n%%start %s\n\n%%%%\n\n", lemp->startRule->lhs->name);
+  printf("\n%%start %s\n\n%%%%\n\n", StartSymbol(lemp)->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
     if(prev_rp && strcmp(prev_rp->lhs->name, rp->lhs->name))
@@ -4898,7 +4908,7 @@ void ReportSQL(
 
   fprintf(sql,
     "UPDATE directives SET start_symbol=%d;\n",
-        lemp->startRule->lhs->index
+        StartSymbol(lemp)->index
   );
 
   if(lemp->stacksize) {
-- 
2.43.0


From 32c1f2783f2e1cd57f2b5527698bbd72fa50c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 063/104] fix: byacc: -S dropped %prec marks whose token has no
 precedence

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 14e3ee3..b5dc8f1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4987,7 +4987,7 @@ print_grammar_sql(byacc_t* S)
               (b > 0) ? "," : " ", i, S->rlhs[i]
             );
             bucket *prec_bucket = S->rprec_bucket[i];
-            if(prec_bucket && prec_bucket->prec_on_decl) {
+            if(prec_bucket) {
                 fprintf(f,"%d)", prec_bucket->index);
             }
             else fprintf(f,"NULL)");
-- 
2.43.0


From 8b507c3b84192833acbf8160f8e10092cca520d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:44 +0000
Subject: [PATCH 064/104] fix: byacc: -e split a nonterminal's definition at
 mid-rule actions and repeated left-hand sides

---
 byacc/reader.c | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index b5dc8f1..95d708f 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4093,46 +4093,40 @@ print_grammar(byacc_t* S)
 static void
 print_grammar_ebnf(byacc_t* S)
 {
-    int i, k;
+    int i, r, k;
     FILE *f = S->ebnf_file;
 
     if (!S->ebnf_flag)
 	return;
 
-    k = 1;
     for (i = START_RULE_IDX; i < S->nrules; ++i)
     {
         const char *sym_name = S->symbol_name[S->rlhs[i]];
-        int skip_rule = sym_name[0] == '$';
-	if (S->rlhs[i] != S->rlhs[i - 1])
-	{
-	    if (i != START_RULE_IDX && !skip_rule)
-		fprintf(f, "\n");
-	    if(!skip_rule)
-                fprintf(f, "%s ::=\n\t", (i == START_RULE_IDX) ? "_start_rule_" : sym_name);
-	}
-	else
-	{
-	    fprintf(f, "\t|");
-	}
-
-        if(!(S->ritem[k] >= 0)) {
-            if(!skip_rule)
-                fprintf(f, " /*empty*/");
-        }
-        else
+        if (sym_name[0] == '$')
+            continue;
+        /* one definition with all the rules, where the first of them is */
+        for (r = START_RULE_IDX; S->rlhs[r] != S->rlhs[i]; ++r)
+            ;
+        if (r != i)
+            continue;
+        fprintf(f, "\n%s ::=\n\t", sym_name);
+        for (; r < S->nrules; ++r)
         {
-            while (S->ritem[k] >= 0)
+            if (S->rlhs[r] != S->rlhs[i])
+                continue;
+            if (r != i)
+                fprintf(f, "\t|");
+            k = S->rrhs[r];
+            if (S->ritem[k] < 0)
+                fprintf(f, " /*empty*/");
+            for (; S->ritem[k] >= 0; ++k)
             {
                 sym_name = S->symbol_name[S->ritem[k]];
-                if(!skip_rule && sym_name[0] != '$')
+                if (sym_name[0] != '$')
                     fprintf(f, " %s", sym_name);
-                ++k;
             }
-        }
-	++k;
-        if(!skip_rule)
             putc('\n', f);
+        }
     }
 }
 
-- 
2.43.0


From 04dea52cb0adecbfaf4175f2b1da4a6e24592a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 065/104] fix: byacc: %empty ended the grammar, silently
 ignoring everything after it

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 95d708f..3e2432a 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3600,7 +3600,7 @@ mark_symbol(byacc_t* S)
 	     ((c = S->cptr[6], !IS_IDENT(c))))
     {
 	S->cptr += 6;
-	return (1);
+	return (0);
     }
     else
 	syntax_error(S, S->lineno, S->line, S->cptr);
-- 
2.43.0


From 96c63fea9d456e324208e1cbb17b6384f6f2519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 066/104] fix: lemon: -S wrote invalid SQL when %stack_size has
 a quote

---
 lemon/lemon.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f597d09..95cb89e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4912,10 +4912,13 @@ void ReportSQL(
   );
 
   if(lemp->stacksize) {
-    fprintf(sql,
-      "UPDATE directives SET stack_size='%s';\n",
-          lemp->stacksize
-    );
+    const char *z;
+    fprintf(sql, "UPDATE directives SET stack_size='");
+    for(z=lemp->stacksize; *z; z++){
+      if( *z=='\'' ) fputc('\'', sql);
+      fputc(*z, sql);
+    }
+    fprintf(sql, "';\n");
   }
 
   if(lemp->wildcard) {
-- 
2.43.0


From 820cfa0a238dab9bbb51d869432de320d3e4dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 067/104] fix: lemon: grammar_view of -S merged all fallbacks
 and wrote an invalid %stack_size

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 95cb89e..eb4d536 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5002,7 +5002,7 @@ void ReportSQL(
     "  ') AS val FROM (\n"
     "  SELECT sf.name AS fb, row_number() OVER (ORDER BY s.id) AS cnt, s.name\n"
     "  FROM symbol s JOIN symbol sf ON s.fallback = sf.id\n"
-    ") t;\n"
+    ") t GROUP BY fb;\n"
     "CREATE VIEW prec_view AS\n"
     "WITH prec(id, name) AS (VALUES('L','%%left'),('R','%%right'),('N','%%nonassoc'),('P','%%precedence'))\n"
     "SELECT prec.name || ' ' || group_concat(s.name, ' ') || ' .'\n"
@@ -5019,7 +5019,7 @@ void ReportSQL(
     "SELECT * FROM prec_view\n"
     "UNION ALL\n"
     "SELECT '\n"
-    "%%stack_size ' || stack_size || ' .\n"
+    "%%stack_size {' || stack_size || '}\n"
     "'\n"
     "FROM directives\n"
     "UNION ALL\n"
-- 
2.43.0


From b9c0c529d4779e7d184b0db87316703f690c3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:59 +0000
Subject: [PATCH 068/104] fix: byacc: #line numbers after an %initial-action
 did not count its lines

---
 byacc/output.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2cb7f5c..2970426 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1949,8 +1949,16 @@ output_yydestruct_decl(byacc_t* S, FILE * fp)
 static void
 output_initial_action(byacc_t* S)
 {
+    const char *s;
+
     if (S->initial_action)
-	fprintf(S->code_file, "%s\n", S->initial_action);
+    {
+	/* comprehend the number of lines in the initial action */
+	for (s = S->initial_action; (s = strchr(s, '\n')) != NULL; s++)
+	    ++S->outline;
+	fputs(S->initial_action, S->code_file);
+	putc_code(S, S->code_file, '\n');
+    }
 }
 
 static void
-- 
2.43.0


From 177e62c6f7b10724676c4a05eeee5d2ee83117ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:00 +0000
Subject: [PATCH 069/104] fix: byacc: #line of a %code block that begins on the
 next line was one too small

---
 byacc/reader.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index 3e2432a..aab428e 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -776,6 +776,16 @@ copy_code(byacc_t* S)
     S->cptr++;			/* skip initial curl */
     while (*S->cptr && isspace(UCH(*S->cptr)))	/* skip space */
 	S->cptr++;
+    if (*S->cptr == '\0')
+    {
+	/* the text begins on the next line */
+	get_line(S);
+	if (S->line == NULL)
+	{
+	    unexpected_EOF(S);
+	    /*NOTREACHED */
+	}
+    }
     curl = 1;			/* nesting count */
 
     /* gather text */
-- 
2.43.0


From 80f2152169d2756a7b6b769c1f86cd895b1e8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 070/104] fix: byacc: "%code{" skipped the brace

---
 byacc/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index aab428e..1d9a62d 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -725,6 +725,7 @@ copy_code(byacc_t* S)
     struct mstring *code_mstr;
 
     /* read %code <keyword> { */
+    S->cptr--;			/* the brace may follow directly */
     for (;;)
     {
 	c = *++S->cptr;
-- 
2.43.0


From a76ec3cb3c2c7e03db61cdcf3ef36ca533b43db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:36 +0000
Subject: [PATCH 071/104] fix: byacc: file names with quotes or backslashes
 broke #line directives

---
 byacc/defs.h   |  3 ++-
 byacc/reader.c | 58 ++++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index f81e092..c798abd 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -433,7 +433,7 @@ typedef struct byacc_t {
 
 #define fprintf_lineno(f, n, s) \
 	    if (!S->lflag) \
-		fprintf(f, S->line_format, (n), (s) ? (s) : "(null)")
+		write_lineno(S, f, (n), s)
 
     Value_t start_symbol;
     char **symbol_name;
@@ -624,6 +624,7 @@ extern const char *const ygv_body_2[];
 extern const char *const ygv_body_3[];
 extern const char *const ygv_trailer[];
 extern const char *ygv_line_format;
+extern void write_lineno(byacc_t* S, FILE *f, int n, const char *name);
 
 /* global functions */
 
diff --git a/byacc/reader.c b/byacc/reader.c
index 1d9a62d..7d8aa13 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -197,6 +197,9 @@ line_directive(byacc_t* S)
 	case ldFILE:
 	    if (ch != '"')
 	    {
+		if (ch == '\\'
+		    && (S->line[n + 1] == '"' || S->line[n + 1] == '\\'))
+		    ++n;
 		break;
 	    }
 	    ld = ldOK;
@@ -219,8 +222,16 @@ line_directive(byacc_t* S)
 	}
 	if ((long)need > 0)
 	{
-	    memcpy(S->input_file_name, S->line + name_1st + 1, need - 1);
-	    S->input_file_name[need - 1] = '\0';
+	    char *s = S->input_file_name;
+
+	    for (n = name_1st + 1; n < name_end; ++n)
+	    {
+		if (S->line[n] == '\\'
+		    && (S->line[n + 1] == '"' || S->line[n + 1] == '\\'))
+		    ++n;
+		*s++ = S->line[n];
+	    }
+	    *s = '\0';
 	}
 	else
 	{
@@ -244,6 +255,45 @@ line_directive(byacc_t* S)
 #undef UNLESS
 }
 
+/* the file name as the text of a C string */
+static char *
+quote_file_name(byacc_t* S, const char *name)
+{
+    char *result;
+    char *s;
+
+    if (name == NULL)
+	name = "(null)";
+    s = result = TMALLOC(char, 2 * strlen(name) + 1);
+    NO_SPACE(result);
+    while (*name != '\0')
+    {
+	if (*name == '"' || *name == '\\')
+	    *s++ = '\\';
+	*s++ = *name++;
+    }
+    *s = '\0';
+    return result;
+}
+
+void
+write_lineno(byacc_t* S, FILE *f, int n, const char *name)
+{
+    char *quoted = quote_file_name(S, name);
+
+    fprintf(f, S->line_format, n, quoted);
+    FREE(quoted);
+}
+
+static void
+msprint_lineno(byacc_t* S, struct mstring *s)
+{
+    char *quoted = quote_file_name(S, S->input_file_name);
+
+    msprintf(S, s, S->line_format, S->lineno, quoted);
+    FREE(quoted);
+}
+
 static void
 save_line(byacc_t* S)
 {
@@ -801,7 +851,7 @@ copy_code(byacc_t* S)
     }
     cline++;
     if (!S->lflag)
-	msprintf(S, code_mstr, S->line_format, S->lineno, S->input_file_name);
+	msprint_lineno(S, code_mstr);
     for (;;)
     {
 	c = *S->cptr++;
@@ -3291,7 +3341,7 @@ get_code(byacc_t* S, struct ainfo *a, const char *loc)
     struct mstring *code_mstr = msnew();
 
     if (!S->lflag)
-	msprintf(S, code_mstr, S->line_format, S->lineno, S->input_file_name);
+	msprint_lineno(S, code_mstr);
 
     S->cptr = after_blanks(S->cptr);
     if (*S->cptr == L_CURL)
-- 
2.43.0


From b74a79119ff32e711941c65d5666f2629000a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 072/104] fix: byacc: line numbers were too large after a
 comment of several lines behind %parse-param

---
 byacc/defs.h   | 2 ++
 byacc/reader.c | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/byacc/defs.h b/byacc/defs.h
index c798abd..6c1d0a4 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -340,6 +340,8 @@ typedef struct
     size_t line_used;	/* position within saved input-line */
     size_t line_size;	/* length of saved input-line */
     fpos_t line_fpos;	/* pointer before reading past saved input-line */
+    int line_lineno;	/* line-number of the saved input-line */
+    char line_eof;	/* whether it was the last one */
 }
 SAVE_LINE;
 
diff --git a/byacc/reader.c b/byacc/reader.c
index 7d8aa13..643ea10 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -315,6 +315,8 @@ restore_line(byacc_t* S)
 	S->line = S->save_area.line_data;
 	S->cptr = S->save_area.line_used + S->line;
 	S->linesize = S->save_area.line_size;
+	S->lineno = S->save_area.line_lineno;
+	S->saw_eof = S->save_area.line_eof;
 	if (fsetpos(S->input_file, &S->save_area.line_fpos) != 0)
 	    on_error(S);
 	memset(&S->save_area, 0, sizeof(S->save_area));
@@ -336,6 +338,8 @@ get_line(byacc_t* S)
 	S->save_area.line_data = TMALLOC(char, S->linesize);
 	S->save_area.line_used = (size_t)(S->cptr - S->line);
 	S->save_area.line_size = S->linesize;
+	S->save_area.line_lineno = S->lineno;
+	S->save_area.line_eof = S->saw_eof;
 	NO_SPACE(S->save_area.line_data);
 	memcpy(S->save_area.line_data, S->line, S->linesize);
 	if (fgetpos(f, &S->save_area.line_fpos) != 0)
-- 
2.43.0


From e1922906cec600a7e4b3d1948a033565acc4a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:45 +0000
Subject: [PATCH 073/104] fix: byacc: #line numbers counted an %ident that -r
 writes to another file

---
 byacc/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 643ea10..645e2dc 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -652,7 +652,8 @@ copy_ident(byacc_t* S)
 	unexpected_EOF(S);
     if (c != '"')
 	syntax_error(S, S->lineno, S->line, S->cptr);
-    ++S->outline;
+    if (!S->rflag)
+	++S->outline;
     fprintf(f, "#ident \"");
     for (;;)
     {
-- 
2.43.0


From a1a166a41a42941d8cc30b997e4297491c29b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:37 +0000
Subject: [PATCH 074/104] fix: byacc: #line of an inherited argument named the
 file of a later #line directive

---
 byacc/defs.h   |  1 +
 byacc/main.c   |  1 +
 byacc/reader.c | 23 ++++++++++++++++++++---
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index 6c1d0a4..f5421a9 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -608,6 +608,7 @@ typedef struct byacc_t {
         size_t num;
     } code_lines[CODE_MAX];
     int rescan_lineno;
+    char *rescan_file_name; /* file of rescan_lineno */
 
 } byacc_t;
 
diff --git a/byacc/main.c b/byacc/main.c
index 67ea5f0..b961f88 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -88,6 +88,7 @@ done(byacc_t* S, int k)
 
 #ifdef NO_LEAKS
     DO_FREE(S->input_file_name);
+    DO_FREE(S->rescan_file_name);
 
     if (S->rflag)
 	DO_FREE(S->code_file_name);
diff --git a/byacc/reader.c b/byacc/reader.c
index 645e2dc..68ea6f1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -255,6 +255,23 @@ line_directive(byacc_t* S)
 #undef UNLESS
 }
 
+/* remember the line and file for a possible rescan of inherited args */
+static void
+save_rescan_position(byacc_t* S)
+{
+    S->rescan_lineno = S->lineno;
+    if (S->rescan_file_name == NULL || S->input_file_name == NULL
+	|| strcmp(S->rescan_file_name, S->input_file_name) != 0)
+    {
+	DO_FREE(S->rescan_file_name);
+	if (S->input_file_name != NULL)
+	{
+	    S->rescan_file_name = strdup(S->input_file_name);
+	    NO_SPACE(S->rescan_file_name);
+	}
+    }
+}
+
 /* the file name as the text of a C string */
 static char *
 quote_file_name(byacc_t* S, const char *name)
@@ -2722,7 +2739,7 @@ advance_to_start(byacc_t* S)
     c = nextc(S);
     if (c == EOF)
 	unexpected_EOF(S);
-    S->rescan_lineno = S->lineno;	/* line# for possible inherited args rescan */
+    save_rescan_position(S);
 #if defined(YYBTYACC)
     if (c == L_PAREN)
     {
@@ -2835,7 +2852,7 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	insert_arg_cache(S, code, rule);
 	S->trialaction = 1;	/* arg rules always run in trial mode */
 	begin_case(f, rule - RULE_NUM_OFFSET);
-	fprintf_lineno(f, line_number, S->input_file_name);
+	fprintf_lineno(f, line_number, S->rescan_file_name);
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
@@ -2871,7 +2888,7 @@ add_symbol(byacc_t* S)
 	bp = get_name(S);
 
     c = nextc(S);
-    S->rescan_lineno = S->lineno;	/* line# for possible inherited args rescan */
+    save_rescan_position(S);
 #if defined(YYBTYACC)
     if (c == L_PAREN)
     {
-- 
2.43.0


From 5335939bb04e67954f82bc3541a0394203331167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:59 +0000
Subject: [PATCH 075/104] fix: lemon's #line numbers did not count the lines of
 a %type of several lines

---
 lemon/lemon.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index eb4d536..06d34e0 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4572,6 +4572,13 @@ PRIVATE void emit_code(
  return;
 }
 
+/* Return the number of line ends in a string */
+PRIVATE int count_newlines(const char *z){
+  int n = 0;
+  for(; *z; z++){ if( *z=='\n' ) n++; }
+  return n;
+}
+
 /*
 ** Print the definition of the union used for the parser's data stack.
 ** This union contains fields for every possible data type for tokens
@@ -4677,6 +4684,7 @@ void print_stack_union(
   if( mhflag ){ fprintf(out,"#if INTERFACE\n"); lineno++; }
   fprintf(out,"#define %sTOKENTYPE %s\n",name,
     lemp->tokentype?lemp->tokentype:"void*");  lineno++;
+  if( lemp->tokentype ) lineno += count_newlines(lemp->tokentype);
   if( mhflag ){ fprintf(out,"#endif\n"); lineno++; }
   fprintf(out,"typedef union {\n"); lineno++;
   fprintf(out,"  int yyinit;\n"); lineno++;
@@ -4684,6 +4692,7 @@ void print_stack_union(
   for(i=0; i<arraysize; i++){
     if( types[i]==0 ) continue;
     fprintf(out,"  %s yy%d;\n",types[i],i+1); lineno++;
+    lineno += count_newlines(types[i]);
     free(types[i]);
   }
   if( lemp->errsym && lemp->errsym->useCnt ){
-- 
2.43.0


From 5ebeff7ef76ad52b073d5e976528097da26564f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:59 +0000
Subject: [PATCH 076/104] fix: lemon: a file name with a quote broke #line
 directives

---
 lemon/lemon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 06d34e0..6666bea 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2805,7 +2805,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
                        && (psp->decllinenoslot==0 || psp->decllinenoslot[0]!=0);
         if( addLineMacro ){
           for(z=psp->filename, nBack=0; *z; z++){
-            if( *z=='\\' ) nBack++;
+            if( *z=='\\' || *z=='"' ) nBack++;
           }
           lemon_sprintf(zLine, "#line %d ", psp->tokenlineno);
           nLine = lemonStrlen(zLine);
@@ -2821,7 +2821,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           zBuf += nLine;
           *(zBuf++) = '"';
           for(z=psp->filename; *z; z++){
-            if( *z=='\\' ){
+            if( *z=='\\' || *z=='"' ){
               *(zBuf++) = '\\';
             }
             *(zBuf++) = *z;
@@ -4160,7 +4160,7 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 {
   fprintf(out,"#line %d \"",lineno);
   while( *filename ){
-    if( *filename == '\\' ) putc('\\',out);
+    if( *filename == '\\' || *filename == '"' ) putc('\\',out);
     putc(*filename,out);
     filename++;
   }
-- 
2.43.0


From 2dfb63043fcd7d6835671690481b44309e8a593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 077/104] fix: lemon's #line numbers counted template lines
 that an %include comment replaces

---
 lemon/lemon.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6666bea..d9a7291 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4087,12 +4087,10 @@ PRIVATE void tplt_xfer(char *name, FILE *in, FILE *out, int *lineno)
 
 /* Skip forward past the header of the template file to the first "%%"
 */
-PRIVATE void tplt_skip_header(FILE *in, int *lineno)
+PRIVATE void tplt_skip_header(FILE *in)
 {
   char line[LINESIZE];
-  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){
-    (*lineno)++;
-  }
+  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){}
 }
 
 /* The next function finds the template file and opens it, returning
@@ -5112,7 +5110,7 @@ void ReportTable(
     }
   }
   if( lemp->include[0]=='/' ){
-    tplt_skip_header(in,&lineno);
+    tplt_skip_header(in);
   }else{
     tplt_xfer(lemp->name,in,out,&lineno);
   }
-- 
2.43.0


From a67ad263b2f1464175637311c6ab95517659f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 078/104] fix: lemon: the trace showed accepting as a pending
 reduction by rule -2

---
 lemon/lempar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index d243c12..f801716 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -626,6 +626,9 @@ static void yyTraceShift(yyParser *yypParser, int yyNewState, const char *zTag){
       fprintf(yyTraceFILE,"%s%s '%s', go to state %d\n",
          yyTracePrompt, zTag, yyTokenName[yypParser->yytos->major],
          yyNewState);
+    }else if( yyNewState<YY_MIN_REDUCE ){
+      fprintf(yyTraceFILE,"%s%s '%s', accept\n",
+         yyTracePrompt, zTag, yyTokenName[yypParser->yytos->major]);
     }else{
       fprintf(yyTraceFILE,"%s%s '%s', pending reduce %d\n",
          yyTracePrompt, zTag, yyTokenName[yypParser->yytos->major],
-- 
2.43.0


From 39f9825b0d67009ee70cd5b52f865e0cf3476ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 079/104] fix: lemon: coverage report read past yy_shift_ofst
 with -r

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index f801716..320f845 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -484,7 +484,7 @@ static unsigned char yycoverage[YYNSTATE][YYNTOKEN];
 int ParseCoverage(FILE *out){
   int stateno, iLookAhead, i;
   int nMissed = 0;
-  for(stateno=0; stateno<YYNSTATE; stateno++){
+  for(stateno=0; stateno<=YY_SHIFT_COUNT; stateno++){
     i = yy_shift_ofst[stateno];
     for(iLookAhead=0; iLookAhead<YYNTOKEN; iLookAhead++){
       if( yy_lookahead[i+iLookAhead]!=iLookAhead ) continue;
-- 
2.43.0


From b07be174be703242d369f377d48cde5a634766a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 080/104] fix: lemon: coverage report listed syntax errors due
 to %nonassoc

---
 lemon/lempar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 320f845..fd10262 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -488,6 +488,7 @@ int ParseCoverage(FILE *out){
     i = yy_shift_ofst[stateno];
     for(iLookAhead=0; iLookAhead<YYNTOKEN; iLookAhead++){
       if( yy_lookahead[i+iLookAhead]!=iLookAhead ) continue;
+      if( yy_action[i+iLookAhead]==YY_ERROR_ACTION ) continue;
       if( yycoverage[stateno][iLookAhead]==0 ) nMissed++;
       if( out ){
         fprintf(out,"State %d lookahead %s %s\n", stateno,
-- 
2.43.0


From 3fcbecae0803bea62cd6b240563a806e09b2fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:53 +0000
Subject: [PATCH 081/104] fix: byacc: parsers with %destructor do not link with
 -r (yystos left out of the tables)

---
 byacc/output.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2970426..7897a84 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -368,6 +368,8 @@ output_accessing_symbols(byacc_t* S)
     {
 	int i, j;
 	int *translate;
+	/* with -r, the code which defines YYDESTRUCT_CALL is in another file */
+	int guard = !(S->rflag && S->destructor);
 
 	translate = TCMALLOC(int, S->nstates);
 	NO_SPACE(translate);
@@ -379,8 +381,9 @@ output_accessing_symbols(byacc_t* S)
 	    translate[i] = S->symbol_pval[gsymb];
 	}
 
-	putl_code(S, S->output_file,
-		  "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
+	if (guard)
+	    putl_code(S, S->output_file,
+		      "#if defined(YYDESTRUCT_CALL) || defined(YYSTYPE_TOSTRING)\n");
 	/* yystos[] may be unused, depending on compile-time defines */
 	start_int_table(S, "stos", translate[0]);
 
@@ -400,8 +403,9 @@ output_accessing_symbols(byacc_t* S)
 
 	end_table(S);
 	FREE(translate);
-	putl_code(S, S->output_file,
-		  "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
+	if (guard)
+	    putl_code(S, S->output_file,
+		      "#endif /* YYDESTRUCT_CALL || YYSTYPE_TOSTRING */\n");
     }
 }
 
-- 
2.43.0


From f1fddf49a9f7118696f21be43a8e0ab4922c2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 082/104] fix: byacc: %define api.pure at the end of a line
 reads past the line

scan_blanks() stepped over the newline, so the text behind it (the rest of
a longer earlier line, or memory past the buffer) was taken as the value and
skipped up to the next newline; a // comment swallowed the following line.
---
 byacc/reader.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 68ea6f1..c665bf8 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1957,12 +1957,12 @@ scan_blanks(byacc_t* S)
 
     do
     {
+	/* stay on this line: nextc() reads the next one */
+	if (S->line != NULL && S->cptr[0] == '/' && S->cptr[1] == '/')
+	    return 0;
 	c = next_inline(S);
-	if (c == '\n')
-	{
-	    ++S->cptr;
+	if (c == '\n' || c == EOF)
 	    return 0;
-	}
 	else if (c == ' ' || c == '\t')
 	    ++S->cptr;
 	else
@@ -1989,6 +1989,7 @@ scan_ident(byacc_t* S)
 static void
 hack_defines(byacc_t* S)
 {
+    int c;
     struct ainfo a;
 
     if (!scan_blanks(S))
@@ -2003,9 +2004,11 @@ hack_defines(byacc_t* S)
     if (!strcmp(S->cache, "api.pure"))
     {
 	end_ainfo(a);
-	scan_blanks(S);
+	*S->cache = NUL;
+	c = scan_blanks(S);
 	begin_ainfo(a, 0);
-	scan_ident(S);
+	if (c)
+	    scan_ident(S);
 
 	if (!strcmp(S->cache, "false"))
 	    S->pure_parser = 0;
@@ -2022,7 +2025,7 @@ hack_defines(byacc_t* S)
 	unexpected_value(S, &a);
     }
 
-    while (next_inline(S) != '\n')
+    while (scan_blanks(S))
 	++S->cptr;
 }
 
-- 
2.43.0


From 8485dea6f387aafb23b3b9c6581328cc24962e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 083/104] fix: byacc -d -i: %code requires/provides appear
 twice in the code file

With -i the code file includes the defines file, which holds these blocks, so
a type defined in one was defined twice and the parser did not compile.
---
 byacc/output.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/byacc/output.c b/byacc/output.c
index 7897a84..2bdd185 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -2156,7 +2156,9 @@ output(byacc_t* S)
     {
 	write_section(S, S->code_file, ygv_impure_vars);
     }
-    output_code_lines(S, S->code_file, CODE_REQUIRES);
+    /* the defines file, which has these blocks, is included with -i */
+    if (!S->iflag || !S->dflag)
+	output_code_lines(S, S->code_file, CODE_REQUIRES);
 
     write_section(S, S->code_file, ygv_hdr_defs);
     if (!S->pure_parser)
@@ -2164,7 +2166,8 @@ output(byacc_t* S)
 	write_section(S, S->code_file, ygv_hdr_vars);
     }
 
-    output_code_lines(S, S->code_file, CODE_PROVIDES);
+    if (!S->iflag || !S->dflag)
+	output_code_lines(S, S->code_file, CODE_PROVIDES);
     output_code_lines(S, S->code_file, CODE_HEADER);
 
     output_trailing_text(S);
-- 
2.43.0


From d9d9c973034b9a0d608b780f07ecb4a592f301ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 084/104] fix: byacc -E: lemon rejects the file when the start
 symbol is used in a rule

Such a grammar (e : e '+' e | ...) needs a start rule of its own in lemon.
---
 byacc/reader.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index c665bf8..d998f64 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4477,6 +4477,7 @@ static void
 print_grammar_lemon(byacc_t* S)
 {
     int i, k;
+    int recursive = 0;
     FILE *f = S->lemon_file;
     char64_t buf;
 
@@ -4514,7 +4515,18 @@ print_grammar_lemon(byacc_t* S)
             fprintf(f, " .\n");
         }
     }
-    fprintf(f, "\n%%start_symbol %s\n", get_lemon_rule_name(&buf, S->goal->name));
+
+    /* lemon does not accept a start symbol that is used in a rule */
+    for (i = START_RULE_IDX, k = 1; i < S->nrules; ++i, ++k)
+    {
+        for (; S->ritem[k] >= 0; ++k)
+            if(i > START_RULE_IDX && S->ritem[k] == S->goal->index)
+                recursive = 1;
+    }
+    if(recursive)
+        fprintf(f, "\n%%start_symbol x_start_rule_\n\nx_start_rule_ ::= %s .\n", get_lemon_rule_name(&buf, S->goal->name));
+    else
+        fprintf(f, "\n%%start_symbol %s\n", get_lemon_rule_name(&buf, S->goal->name));
 
     k = 1;
     for (i = START_RULE_IDX; i < S->nrules; ++i)
-- 
2.43.0


From a9f0e724cd045ecccafef1f197468381f1463219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:57 +0000
Subject: [PATCH 085/104] fix: byacc: %destructor and %initial-action: the
 brace may follow a comment or line break

---
 byacc/reader.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index d998f64..63fa9d4 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3365,11 +3365,14 @@ get_code(byacc_t* S, struct ainfo *a, const char *loc)
     char *tag;
     struct mstring *code_mstr = msnew();
 
+    c = nextc(S);		/* skips comments and line ends as well */
+    if (c == EOF)
+	unexpected_EOF(S);
+
     if (!S->lflag)
 	msprint_lineno(S, code_mstr);
 
-    S->cptr = after_blanks(S->cptr);
-    if (*S->cptr == L_CURL)
+    if (c == L_CURL)
 	/* avoid putting curly-braces in first column, to ease editing */
 	mputc(code_mstr, '\t');
     else
-- 
2.43.0


From eea2941fd9ddcaccecf53a89d68768bcba98454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:42 +0000
Subject: [PATCH 086/104] fix: byacc: a // comment behind a /* */ comment on a
 %define line swallows the next line

---
 byacc/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index 63fa9d4..f2c2a04 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1958,6 +1958,8 @@ scan_blanks(byacc_t* S)
     do
     {
 	/* stay on this line: nextc() reads the next one */
+	while (S->line != NULL && S->cptr[0] == '/' && S->cptr[1] == '*')
+	    skip_comment(S);
 	if (S->line != NULL && S->cptr[0] == '/' && S->cptr[1] == '/')
 	    return 0;
 	c = next_inline(S);
-- 
2.43.0


From 23b4ef9e83164a04519705694d6a1b8a301821d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:23 +0000
Subject: [PATCH 087/104] fix: lemon changed a %token_class everywhere when one
 rule extended it with |TOKEN

---
 lemon/lemon.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d9a7291..d5b9de4 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2576,22 +2576,29 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         }
       }else if( (x[0]=='|' || x[0]=='/') && psp->nrhs>0 && ISUPPER(x[1]) ){
         struct symbol *msp = psp->rhs[psp->nrhs-1];
-        if( msp->type!=MULTITERMINAL ){
+        if( msp->type!=MULTITERMINAL || ISLOWER(msp->name[0]) ){
+          /* A %token_class has other uses, so extend a copy of it */
           struct symbol *origsp = msp;
+          int isClass = origsp->type==MULTITERMINAL;
           msp = (struct symbol *) calloc(1,sizeof(*msp));
-          memset(msp, 0, sizeof(*msp));
+          MemoryCheck(msp);
           msp->type = MULTITERMINAL;
-          msp->nsubsym = 1;
+          msp->nsubsym = isClass ? origsp->nsubsym : 1;
           msp->id = lem->lastSymId++;
-          msp->subsym = (struct symbol **) calloc(1,sizeof(struct symbol*));
-          msp->subsym[0] = origsp;
-          msp->name = origsp->name;
+          msp->subsym = (struct symbol **) calloc(msp->nsubsym+1,
+                                                  sizeof(struct symbol*));
+          MemoryCheck(msp->subsym);
+          if( msp->nsubsym ){
+            memcpy(msp->subsym, isClass ? origsp->subsym : &origsp,
+                   msp->nsubsym*sizeof(struct symbol*));
+          }
           psp->rhs[psp->nrhs-1] = msp;
         }
         msp->nsubsym++;
         msp->subsym = (struct symbol **) realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, &x[1]);
+        msp->name = msp->subsym[0]->name;
         if( ISLOWER(x[1]) || ISLOWER(msp->subsym[0]->name[0]) ){
           ErrorMsg(psp->filename,psp->tokenlineno,
             "Cannot form a compound containing a non-terminal");
-- 
2.43.0


From c4c16515e76e0429e972c2f1054f455836da7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:46 +0000
Subject: [PATCH 088/104] fix: the warning about a redeclared %type named the
 line of the next token

---
 byacc/reader.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index f2c2a04..6e55672 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -2052,29 +2052,27 @@ declare_types(byacc_t* S)
 	if (isalpha(UCH(c)) || c == '_' || c == '.' || c == '$')
 	{
 	    bp = get_name(S);
-#if defined(YYBTYACC)
-	    if (nextc(S) == L_PAREN)
-		declare_argtypes(S, bp);
-	    else
-		bp->args = 0;
-#endif
 	}
 	else if (c == '\'' || c == '"')
 	{
 	    bp = get_literal(S);
-#if defined(YYBTYACC)
-	    bp->args = 0;
-#endif
 	}
 	else
 	    return;
 
+	/* nextc() may go on to another line */
 	if (tag)
 	{
 	    if (bp->tag && tag != bp->tag)
 		retyped_warning(S, bp->name);
 	    bp->tag = tag;
 	}
+#if defined(YYBTYACC)
+	if (c != '\'' && c != '"' && nextc(S) == L_PAREN)
+	    declare_argtypes(S, bp);
+	else
+	    bp->args = 0;
+#endif
     }
 }
 
-- 
2.43.0


From d48d6a4cab3f5de5156d670f9aa114185b05106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 089/104] fix: lemon reported a nonterminal without rules at
 the line of the code of the rule, or at line 0

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d5b9de4..2758ee4 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1501,7 +1501,7 @@ void Configlist_closure(struct lemon *lemp)
     sp = rp->rhs[dot];
     if( sp->type==NONTERMINAL ){
       if( sp->rule==0 && sp!=lemp->errsym ){
-        ErrorMsg(lemp->filename,rp->line,"Nonterminal \"%s\" has no rules.",
+        ErrorMsg(lemp->filename,rp->ruleline,"Nonterminal \"%s\" has no rules.",
           sp->name);
         lemp->errorcnt++;
       }
-- 
2.43.0


From 1317f11fbe3f1bbe904a658a877b3df010ed6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 090/104] fix: lemon named the left-hand side label, or (null),
 when the ) of a right-hand side label is missing

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 2758ee4..d93745c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2630,7 +2630,8 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         psp->state = IN_RHS;
       }else{
         ErrorMsg(psp->filename,psp->tokenlineno,
-          "Missing \")\" following LHS alias name \"%s\".",psp->lhsalias);
+          "Missing \")\" following RHS alias name \"%s\".",
+          psp->alias[psp->nrhs-1]);
         psp->errorcnt++;
         psp->state = RESYNC_AFTER_RULE_ERROR;
       }
-- 
2.43.0


From 6d6058c1c54d574218853226dd82dca93aa49dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 091/104] fix: lemon silently skipped the rest of the grammar
 behind an unterminated comment

---
 lemon/lemon.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d93745c..8c0e148 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3212,13 +3212,21 @@ void Parse(struct lemon *gp)
       continue;
     }
     if( c=='/' && cp[1]=='*' ){          /* Skip C style comments */
+      int startline = lineno;
       cp+=2;
       if( (*cp)=='/' ) cp++;
       while( (c= *cp)!=0 && (c!='/' || cp[-1]!='*') ){
         if( c=='\n' ) lineno++;
         cp++;
       }
-      if( c ) cp++;
+      if( c ){
+        cp++;
+      }else{
+        ErrorMsg(ps.filename,startline,
+            "Comment starting on this line is not terminated before "
+            "the end of the file.");
+        ps.errorcnt++;
+      }
       continue;
     }
     ps.tokenstart = cp;                /* Mark the beginning of the token */
-- 
2.43.0


From 4ac8070679986ffde8020152826f3dc8c8ef84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:35 +0000
Subject: [PATCH 092/104] fix: lemon silently dropped a rule or declaration
 that the end of the file cuts off

---
 lemon/lemon.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 8c0e148..828cb30 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3307,6 +3307,12 @@ void Parse(struct lemon *gp)
     *cp = (char)c;                  /* Restore the buffer */
     cp = nextcp;
   }
+  if( ps.errorcnt==0 && ps.state!=INITIALIZE
+        && ps.state!=WAITING_FOR_DECL_OR_RULE ){
+    ErrorMsg(ps.filename,ps.tokenlineno,
+      "The rule or declaration is not complete at the end of the file.");
+    ps.errorcnt++;
+  }
   free(filebuf);                    /* Release the buffer after parsing */
   gp->rule = ps.firstrule;
   gp->errorcnt = ps.errorcnt;
-- 
2.43.0


From f759f8de77d8ff31df84dcb2d53460b4fa7e258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:23 +0000
Subject: [PATCH 093/104] fix: byacc -C put string tokens in quotes twice

---
 byacc/reader.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 6e55672..76c88a2 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4803,7 +4803,7 @@ print_grammar_unicc(byacc_t* S)
                         fprintf(f, "#%s /*%d*/", assoc_name, prec);
                         sassoc = 1;
                     }
-                    if(sym_name[0] == '\'')
+                    if(sym_name[0] == '\'' || sym_name[0] == '"')
                         fprintf(f, " %s", sym_name);
                     else
                         fprintf(f, " \"%s\"", sym_name);
@@ -4850,11 +4850,10 @@ print_grammar_unicc(byacc_t* S)
                 if(!skip_rule && sym_name[0] != '$') {
                     bucket *bp = lookup(S, sym_name);
                     if(bp->class == TERM) {
-                        if(sym_name[0] == '\'')
+                        if(sym_name[0] == '\'' || sym_name[0] == '"')
                             fprintf(f, " %s", sym_name);
                         else
                             fprintf(f, " \"%s\"", sym_name);
-                        print_symbol_prec_commented(S, f, symbol);
                     }
                     else
                         fprintf(f, " %s", get_normalized_rule_name(&buf, sym_name));
@@ -4872,7 +4871,7 @@ print_grammar_unicc(byacc_t* S)
         if(!skip_rule) {
             bucket *prec_bucket = S->rprec_bucket[i];
             if(prec_bucket) {
-                if(prec_bucket->name[0] == '\'')
+                if(prec_bucket->name[0] == '\'' || prec_bucket->name[0] == '"')
                     fprintf(f, " #precedence %s", prec_bucket->name);
                 else
                     fprintf(f, " #precedence \"%s\"", prec_bucket->name);
-- 
2.43.0


From 093f0ee6a696f2cb18ca0581c9a719c157623f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:23 +0000
Subject: [PATCH 094/104] fix: byacc -c declared tokens under names that the
 rules did not use

---
 byacc/reader.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 76c88a2..4415fbc 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4948,9 +4948,10 @@ print_grammar_carburetta(byacc_t* S)
             while (S->ritem[k] >= 0)
             {
                 Value_t symbol = S->ritem[k];
-                sym_name = get_normalized_rule_name(&buf, S->symbol_name[symbol]);
+                sym_name = S->symbol_name[symbol];
                 if(!skip_rule && sym_name[0] != '$') {
-                    fprintf(f, " %s", sym_name);
+                    fprintf(f, " %s", ISTOKEN(symbol) ? get_lemon_token_name(&buf, sym_name) :
+                        get_normalized_rule_name(&buf, sym_name));
                     print_symbol_prec_commented(S, f, symbol);
                 }
                 ++k;
@@ -4965,7 +4966,7 @@ print_grammar_carburetta(byacc_t* S)
         if(!skip_rule) {
             bucket *prec_bucket = S->rprec_bucket[i];
             if(prec_bucket) {
-                fprintf(f, " //%%prec %s", prec_bucket->name);
+                fprintf(f, " //%%prec %s", get_lemon_token_name(&buf, prec_bucket->name));
                 print_symbol_prec_assoc_commented(f, prec_bucket->prec, prec_bucket->assoc);
                 fprintf(f, "\n");
             }
-- 
2.43.0


From dee3caf7c1f301ece97bd3b89baf8efe73d3cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:23 +0000
Subject: [PATCH 095/104] fix: byacc -c listed nonterminals with several rules
 repeatedly and could end the list with an empty %nt

---
 byacc/reader.c | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 4415fbc..2fb019a 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4904,24 +4904,15 @@ print_grammar_carburetta(byacc_t* S)
     
     //fprintf(f, "\n%%start %s\n", goal->name);
     fprintf(f, "\n%%grammar%%\n\n");
-    for (b = 0, i = START_RULE_IDX; i < S->nrules; ++i)
+    for (b = 0, i = S->start_symbol; i < S->nsyms; ++i)
     {
-        const char *sym_name = S->symbol_name[S->rlhs[i]];
-        int skip_rule = sym_name[0] == '$';
-	if (S->rlhs[i] != S->rlhs[i - 1])
-	{
-	    if(!skip_rule) {
-                bucket *bp = lookup(S, sym_name);
-                if(bp->class == TERM) continue;
-                if(!b) {
-                    fprintf(f, "%%nt");
-                }
-        	fprintf(f, " %s", get_normalized_rule_name(&buf, sym_name));
-                ++b;
-                if((b % 5) == 0)
-                    fprintf(f, "\n%%nt");
-            }
-	}
+        const char *sym_name = S->symbol_name[i];
+        if(sym_name[0] == '$')
+            continue;
+        if((b % 5) == 0)
+            fprintf(f, b ? "\n%%nt" : "%%nt");
+        fprintf(f, " %s", get_normalized_rule_name(&buf, sym_name));
+        ++b;
     }
     if(b)
         fprintf(f, "\n");
-- 
2.43.0


From 61b895fa93fefbac09e0b215d790709be65d6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:20 +0000
Subject: [PATCH 096/104] fix: byacc -c and -C split definitions at mid-rule
 actions, with a stray ; before the first rule

---
 byacc/reader.c | 153 +++++++++++++++++++++----------------------------
 1 file changed, 65 insertions(+), 88 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 2fb019a..c16a27e 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4772,7 +4772,7 @@ static const char *get_normalized_rule_name(char64_t *buf, const char *tkname)
 static void
 print_grammar_unicc(byacc_t* S)
 {
-    int b, i, k;
+    int i, r, k;
     FILE *f = S->unicc_file;
     char64_t buf;
 
@@ -4818,76 +4818,60 @@ print_grammar_unicc(byacc_t* S)
     //fprintf(f, "\n%%start %s\n", goal->name);
     //fprintf(f, "\n%%%%\n\n");
 
-    k = 1;
-    b = 0;
     for (i = START_RULE_IDX; i < S->nrules; ++i)
     {
         const char *sym_name = S->symbol_name[S->rlhs[i]];
-        int skip_rule = sym_name[0] == '$';
-	if (S->rlhs[i] != S->rlhs[i - 1])
-	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
-		fprintf(f, "\t;\n");
-	    if(!skip_rule) {
-                if(b == 0 && strcmp(S->goal->name, sym_name) == 0) {
-                    ++b;
-                    fprintf(f, "%s$ :\n\t", get_normalized_rule_name(&buf, sym_name));
-                }
-        	else fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : 
-                    get_normalized_rule_name(&buf, sym_name));
-            }
-	}
-	else
-	{
-	    fprintf(f, "\t|");
-	}
-
-        if(S->ritem[k] >= 0) {
-            while (S->ritem[k] >= 0)
+        if (sym_name[0] == '$')
+            continue;
+        /* one definition with all the rules, where the first of them is */
+        for (r = START_RULE_IDX; S->rlhs[r] != S->rlhs[i]; ++r)
+            ;
+        if (r != i)
+            continue;
+        fprintf(f, "%s%s :\n\t", get_normalized_rule_name(&buf, sym_name),
+            strcmp(S->goal->name, sym_name) == 0 ? "$" : "");
+        for (; r < S->nrules; ++r)
+        {
+            bucket *prec_bucket = S->rprec_bucket[r];
+            if (S->rlhs[r] != S->rlhs[i])
+                continue;
+            if (r != i)
+                fprintf(f, "\t|");
+            k = S->rrhs[r];
+            if (S->ritem[k] < 0)
+                fprintf(f, " /*empty*/");
+            for (; S->ritem[k] >= 0; ++k)
             {
                 Value_t symbol = S->ritem[k];
                 sym_name = S->symbol_name[symbol];
-                if(!skip_rule && sym_name[0] != '$') {
-                    bucket *bp = lookup(S, sym_name);
-                    if(bp->class == TERM) {
-                        if(sym_name[0] == '\'' || sym_name[0] == '"')
-                            fprintf(f, " %s", sym_name);
-                        else
-                            fprintf(f, " \"%s\"", sym_name);
-                    }
-                    else
-                        fprintf(f, " %s", get_normalized_rule_name(&buf, sym_name));
-                    print_symbol_prec_commented(S, f, symbol);
-                }
-                ++k;
+                if (sym_name[0] == '$')
+                    continue;
+                if (!ISTOKEN(symbol))
+                    fprintf(f, " %s", get_normalized_rule_name(&buf, sym_name));
+                else if (sym_name[0] == '\'' || sym_name[0] == '"')
+                    fprintf(f, " %s", sym_name);
+                else
+                    fprintf(f, " \"%s\"", sym_name);
+                print_symbol_prec_commented(S, f, symbol);
             }
-        }
-        else
-        {
-            if(!skip_rule)
-                fprintf(f, " /*empty*/");
-        }
-	++k;
-        if(!skip_rule) {
-            bucket *prec_bucket = S->rprec_bucket[i];
-            if(prec_bucket) {
-                if(prec_bucket->name[0] == '\'' || prec_bucket->name[0] == '"')
+            if (prec_bucket)
+            {
+                if (prec_bucket->name[0] == '\'' || prec_bucket->name[0] == '"')
                     fprintf(f, " #precedence %s", prec_bucket->name);
                 else
                     fprintf(f, " #precedence \"%s\"", prec_bucket->name);
                 print_symbol_prec_assoc_commented(f, prec_bucket->prec, prec_bucket->assoc);
-                fprintf(f, "\n");
             }
-            else fprintf(f, "\n");
+            putc('\n', f);
         }
+        fprintf(f, "\t;\n");
     }
-    fprintf(f, "\t;\n"); /*last rule*/
 }
 
 static void
 print_grammar_carburetta(byacc_t* S)
 {
-    int b, i, k;
+    int b, i, r, k;
     FILE *f = S->carburetta_file;
     char64_t buf;
 
@@ -4918,53 +4902,46 @@ print_grammar_carburetta(byacc_t* S)
         fprintf(f, "\n");
     fprintf(f, "\n");
 
-    k = 1;
     for (i = START_RULE_IDX; i < S->nrules; ++i)
     {
-        const char *sym_name = get_normalized_rule_name(&buf, S->symbol_name[S->rlhs[i]]);
-        int skip_rule = sym_name[0] == '$';
-	if (S->rlhs[i] != S->rlhs[i - 1])
-	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
-		fprintf(f, "\t;\n");
-	    if(!skip_rule)
-        	fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
-	}
-	else
-	{
-	    fprintf(f, "\t|");
-	}
-
-        if(S->ritem[k] >= 0) {
-            while (S->ritem[k] >= 0)
+        const char *sym_name = S->symbol_name[S->rlhs[i]];
+        if (sym_name[0] == '$')
+            continue;
+        /* one definition with all the rules, where the first of them is */
+        for (r = START_RULE_IDX; S->rlhs[r] != S->rlhs[i]; ++r)
+            ;
+        if (r != i)
+            continue;
+        fprintf(f, "%s :\n\t", get_normalized_rule_name(&buf, sym_name));
+        for (; r < S->nrules; ++r)
+        {
+            bucket *prec_bucket = S->rprec_bucket[r];
+            if (S->rlhs[r] != S->rlhs[i])
+                continue;
+            if (r != i)
+                fprintf(f, "\t|");
+            k = S->rrhs[r];
+            if (S->ritem[k] < 0)
+                fprintf(f, " /*empty*/");
+            for (; S->ritem[k] >= 0; ++k)
             {
                 Value_t symbol = S->ritem[k];
                 sym_name = S->symbol_name[symbol];
-                if(!skip_rule && sym_name[0] != '$') {
-                    fprintf(f, " %s", ISTOKEN(symbol) ? get_lemon_token_name(&buf, sym_name) :
-                        get_normalized_rule_name(&buf, sym_name));
-                    print_symbol_prec_commented(S, f, symbol);
-                }
-                ++k;
+                if (sym_name[0] == '$')
+                    continue;
+                fprintf(f, " %s", ISTOKEN(symbol) && strcmp(sym_name, "error") != 0 ?
+                    get_lemon_token_name(&buf, sym_name) : get_normalized_rule_name(&buf, sym_name));
+                print_symbol_prec_commented(S, f, symbol);
             }
-        }
-        else
-        {
-            if(!skip_rule)
-                fprintf(f, " /*empty*/");
-        }
-	++k;
-        if(!skip_rule) {
-            bucket *prec_bucket = S->rprec_bucket[i];
-            if(prec_bucket) {
+            if (prec_bucket)
+            {
                 fprintf(f, " //%%prec %s", get_lemon_token_name(&buf, prec_bucket->name));
                 print_symbol_prec_assoc_commented(f, prec_bucket->prec, prec_bucket->assoc);
-                fprintf(f, "\n");
             }
-            else fprintf(f, "\n");
+            putc('\n', f);
         }
+        fprintf(f, "\t;\n");
     }
-    fprintf(f, "\t;\n"); /*last rule*/
 }
 
 static void print_sql_name(FILE *f, const char *name)
-- 
2.43.0


From a326c3aec0cbb93bcbbe857bd20cea38db2f1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:37 +0000
Subject: [PATCH 097/104] fix: byacc -n and -N wrote a stray ; when the first
 rule has a mid-rule action

---
 byacc/reader.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index c16a27e..0ea3320 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4580,7 +4580,7 @@ print_grammar_lemon(byacc_t* S)
 static void
 print_grammar_naked(byacc_t* S)
 {
-    int i, k;
+    int i, k, open = 0; /* whether a definition is to be ended */
     FILE *f = S->naked_file;
 
     if (!S->naked_flag)
@@ -4626,10 +4626,12 @@ print_grammar_naked(byacc_t* S)
         int skip_rule = sym_name[0] == '$';
 	if (S->rlhs[i] != S->rlhs[i - 1])
 	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
+	    if (open && !skip_rule)
 		fprintf(f, "\t;\n");
-	    if(!skip_rule)
-        	fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
+	    if(!skip_rule) {
+		fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
+		open = 1;
+	    }
 	}
 	else
 	{
@@ -4670,7 +4672,7 @@ print_grammar_naked(byacc_t* S)
 static void
 print_grammar_nakedQ(byacc_t* S)
 {
-    int i, k;
+    int i, k, open = 0; /* whether a definition is to be ended */
     FILE *f = S->nakedq_file;
 
     if (!S->nakedq_flag)
@@ -4716,10 +4718,12 @@ print_grammar_nakedQ(byacc_t* S)
         int skip_rule = sym_name[0] == '$';
 	if (S->rlhs[i] != S->rlhs[i - 1])
 	{
-	    if (i > START_RULE_IDX+1 && !skip_rule) /*+1 to not print ';' at the beginning*/
+	    if (open && !skip_rule)
 		fprintf(f, "\t;\n");
-	    if(!skip_rule)
+	    if(!skip_rule) {
 		fprintf(f, "%s :\n\t", (i == START_RULE_IDX) ? "x_start_rule_" : sym_name);
+		open = 1;
+	    }
 	}
 	else
 	{
-- 
2.43.0


From 3248ecb82ffadb7e8ad8606bfd47ecb045c90ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:59 +0000
Subject: [PATCH 098/104] fix: byacc counted the braces of strings and comments
 in %code blocks

---
 byacc/reader.c | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 0ea3320..9b42815 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -793,6 +793,7 @@ copy_code(byacc_t* S)
     int curl;
     int cline;
     int on_line = 0;
+    int quote = 0;		/* in a string, or a comment: '/' or '*' */
     int pos = CODE_HEADER;
     struct mstring *code_mstr;
 
@@ -890,12 +891,52 @@ copy_code(byacc_t* S)
 	case '\n':
 	    cline++;
 	    on_line = 0;
+	    if (quote != '*')
+		quote = 0;
+	    break;
+	case '\'':
+	case '"':
+	    if (quote == 0)
+		quote = c;
+	    else if (quote == c)
+		quote = 0;
+	    break;
+	case '\\':
+	    if ((quote == '\'' || quote == '"') && *S->cptr != '\0')
+	    {
+		mputc(code_mstr, c);
+		on_line++;
+		c = *S->cptr++;
+		if (c == '\n')
+		{
+		    cline++;
+		    on_line = 0;
+		}
+	    }
+	    break;
+	case '/':
+	    if (quote == 0 && (*S->cptr == '/' || *S->cptr == '*'))
+	    {
+		mputc(code_mstr, c);
+		on_line++;
+		quote = c = *S->cptr++;
+	    }
+	    break;
+	case '*':
+	    if (quote == '*' && *S->cptr == '/')
+	    {
+		mputc(code_mstr, c);
+		on_line++;
+		c = *S->cptr++;
+		quote = 0;
+	    }
 	    break;
 	case L_CURL:
-	    curl++;
+	    if (quote == 0)
+		curl++;
 	    break;
 	case R_CURL:
-	    if (--curl == 0)
+	    if (quote == 0 && --curl == 0)
 	    {
 		if (on_line > 1)
 		{
-- 
2.43.0


From a9ccb8c09f9a181e61eb7e14e523d669ad76e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 099/104] fix: lemon crashed on I=, O=, f= and W= arguments

---
 lemon/lemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 828cb30..6d1de50 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2168,6 +2168,8 @@ static int handleswitch(struct lemon *lem, int i, FILE *err)
       errline(lem, i,0,err);
     }
     errcnt++;
+  }else if( lem->op[j].arg==0 ){
+    /* Ignore this option */
   }else{
     cp++;
     switch( lem->op[j].type ){
-- 
2.43.0


From cf2a96c567f7d7d53051c05038b66922b9831f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 100/104] fix: lemon rejected -- as an undefined option

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6d1de50..0f67fe8 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2245,6 +2245,7 @@ int OptInit(struct lemon *lem, char **a, struct s_options *o, FILE *err)
   if( lem->g_argv && *lem->g_argv && lem->op ){
     int i;
     for(i=1; lem->g_argv[i]; i++){
+      if( strcmp(lem->g_argv[i],"--")==0 ) break;
       if( lem->g_argv[i][0]=='+' || lem->g_argv[i][0]=='-' ){
         errcnt += handleflags(lem, i,err);
       }else if( strchr(lem->g_argv[i],'=') ){
-- 
2.43.0


From 19eed96d77ffd7a10c116e2fdde9639528d6c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 101/104] fix: lemon cut output and template names at the dots
 of directories

---
 lemon/lemon.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 0f67fe8..ad96fdb 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3387,6 +3387,15 @@ void Plink_delete(struct lemon *lemp, struct plink *plp)
 ** Procedures for generating reports and tables in the LEMON parser generator.
 */
 
+/* Return a pointer to the dot that starts the extension of a file name, or
+** NULL if the name has none.  The dots of directories do not count.
+*/
+PRIVATE char *file_extension(char *name)
+{
+  char *cp = strrchr(name,'.');
+  return cp && strchr(cp,'/')==0 ? cp : 0;
+}
+
 /* Generate a filename with the given suffix.  Space to hold the
 ** name comes from malloc() and must be freed by the calling
 ** function.
@@ -3417,7 +3426,7 @@ PRIVATE char *file_makename(struct lemon *lemp, const char *suffix)
     lemon_strcat(name, "/");
   }
   lemon_strcat(name,filename);
-  cp = strrchr(name,'.');
+  cp = file_extension(name);
   if( cp ) *cp = 0;
   lemon_strcat(name,suffix);
   return name;
@@ -4148,7 +4157,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
 
   buf = (char*)malloc( lemonStrlen(lemp->filename) + 4 );
   MemoryCheck(buf);
-  cp = strrchr(lemp->filename,'.');
+  cp = file_extension(lemp->filename);
   if( cp ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
   }else{
-- 
2.43.0


From 4f63d003191222216e7ad39156a1bb39ca3d130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 102/104] fix: lemon -d, -D and -T accepted an empty argument,
 -d then wrote to the root directory

---
 lemon/lemon.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ad96fdb..137b66f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2132,7 +2132,7 @@ static int handleflags(struct lemon *lem, int i, FILE *err)
     *((int*)lem->op[j].arg) = v;
   }else if( lem->op[j].type==OPT_FFLAG ){
     (*(void(*)(int))(lem->op[j].arg))(v);
-  }else if( lem->op[j].type==OPT_FSTR ){
+  }else if( lem->op[j].type==OPT_FSTR && lem->g_argv[i][2]!=0 ){
     (*(void(*)(struct lemon *lem, char *))(lem->op[j].arg))(lem, &lem->g_argv[i][2]);
   }else{
     if( err ){
@@ -2170,6 +2170,12 @@ static int handleswitch(struct lemon *lem, int i, FILE *err)
     errcnt++;
   }else if( lem->op[j].arg==0 ){
     /* Ignore this option */
+  }else if( lem->op[j].type==OPT_FSTR && cp[1]==0 ){
+    if( err ){
+      fprintf(err,"%smissing argument on switch.\n",emsg);
+      errline(lem, i,0,err);
+    }
+    errcnt++;
   }else{
     cp++;
     switch( lem->op[j].type ){
-- 
2.43.0


From 76c2c932302eb6554aad6540f8bd69ec5a9d3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:35 +0000
Subject: [PATCH 103/104] fix: byacc rejected long options whose argument has a
 -- where the shortened option ends

---
 byacc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/main.c b/byacc/main.c
index b961f88..3ca4116 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -421,7 +421,7 @@ getargs(byacc_t* S, int argc, char *argv[])
 		    break;
 		}
 	    }
-	    if (!strncmp(a, "--", 2))
+	    if (lc == SIZEOF(long_opts))
 		invalid_option(a, S);
 	}
     }
-- 
2.43.0


From da86bb2a8f2d16cae8fd7144a2c77bbdf7ac6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:49 +0000
Subject: [PATCH 104/104] fix: byacc took --=x as --defines=x

---
 byacc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/main.c b/byacc/main.c
index 3ca4116..f4e3adf 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -401,7 +401,7 @@ getargs(byacc_t* S, int argc, char *argv[])
 	    if ((eqls = strchr(a, '=')) != NULL)
 	    {
 		len = (size_t)(eqls - a);
-		if (len == 0 || eqls[1] == '\0')
+		if (len == 2 || eqls[1] == '\0')
 		    invalid_option(a, S);
 	    }
 
-- 
2.43.0

