From add8c79d5306a24bda3241a936879b56afc2be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 01/26] fix: lemon: leave the header comment of the generated
 parser open until it is complete

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..332dd49 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4955,7 +4955,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
-- 
2.43.0


From 2d33a912e4d96c348609b6ef0acb018aa08e42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 02/26] fix: lemon: count the #ifndef line written before the
 token definitions

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 332dd49..168250e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4999,6 +4999,7 @@ void ReportTable(
     fprintf(out,"#if INTERFACE\n"); lineno++;
   }else{
     fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name);
+    lineno++;
   }
   for(i=1; i<lemp->nterminal; i++){
     fprintf(out,"#define %s%-30s %2d\n",prefix,lemp->symbols[i]->name,i);
-- 
2.43.0


From 7d1c11e09952420916fe50e4a34ad58d69b74bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 03/26] fix: lemon: do not count template header lines that are
 skipped, not written

---
 lemon/lemon.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 168250e..a61b451 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3986,12 +3986,10 @@ PRIVATE void tplt_xfer(char *name, FILE *in, FILE *out, int *lineno)
 
 /* Skip forward past the header of the template file to the first "%%"
 */
-PRIVATE void tplt_skip_header(FILE *in, int *lineno)
+PRIVATE void tplt_skip_header(FILE *in)
 {
   char line[LINESIZE];
-  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){
-    (*lineno)++;
-  }
+  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){}
 }
 
 /* The next function finds the template file and opens it, returning
@@ -4978,7 +4976,7 @@ void ReportTable(
     }
   }
   if( lemp->include[0]=='/' ){
-    tplt_skip_header(in,&lineno);
+    tplt_skip_header(in);
   }else{
     tplt_xfer(lemp->name,in,out,&lineno);
   }
-- 
2.43.0


From 171897372e973bf6344b08b254c4eb76f4f59f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 04/26] fix: byacc: count the %ident line only when it goes to
 the file whose lines are counted

---
 byacc/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..c0787e4 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -598,7 +598,8 @@ copy_ident(byacc_t* S)
 	unexpected_EOF(S);
     if (c != '"')
 	syntax_error(S, S->lineno, S->line, S->cptr);
-    ++S->outline;
+    if (!S->rflag)
+	++S->outline;
     fprintf(f, "#ident \"");
     for (;;)
     {
-- 
2.43.0


From a5335db0570779797903325074b3bb585ebe6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 05/26] fix: byacc: grow the formatting buffer to the length
 needed and record its new size

---
 byacc/mstring.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/byacc/mstring.c b/byacc/mstring.c
index a031744..df5c0f5 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -36,16 +36,19 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	va_start(args, fmt);
 	len = (size_t)vsnprintf(S->fs5_buf_ptr, S->fs5_buf_len, fmt, args);
 	va_end(args);
-	if ((changed = (len > S->fs5_buf_len)) != 0)
+	if ((changed = (len >= S->fs5_buf_len)) != 0)
 	{
-	    char *new_ptr = realloc(S->fs5_buf_ptr, (S->fs5_buf_len * 3) / 2);
+	    size_t new_len = (len * 3) / 2 + TAIL;
+	    char *new_ptr = realloc(S->fs5_buf_ptr, new_len);
 	    if (new_ptr == 0)
 	    {
 		free(S->fs5_buf_ptr);
 		S->fs5_buf_ptr = 0;
+		S->fs5_buf_len = 0;
 		return;
 	    }
 	    S->fs5_buf_ptr = new_ptr;
+	    S->fs5_buf_len = new_len;
 	}
     }
     while (changed);
-- 
2.43.0


From 89a2291048edfd32e68490a231cc4124c5af9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 06/26] fix: byacc: stop with a diagnostic when a string buffer
 cannot be allocated

---
 byacc/defs.h    |  6 +++---
 byacc/mstring.c | 25 +++++++++----------------
 byacc/reader.c  | 32 ++++++++++++++++----------------
 3 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index d0f441d..59327c8 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -753,9 +753,9 @@ struct mstring
 
 extern void msprintf(byacc_t* S, struct mstring *, const char *, ...) GCC_PRINTFLIKE(3,4);
 extern int mputchar(struct mstring *, int);
-extern struct mstring *msnew(void);
-extern struct mstring *msrenew(char *);
-extern char *msdone(struct mstring *);
+extern struct mstring *msnew(byacc_t* S);
+extern struct mstring *msrenew(byacc_t* S, char *);
+extern char *msdone(byacc_t* S, struct mstring *);
 extern int strnscmp(const char *, const char *);
 extern unsigned int strnshash(const char *);
 
diff --git a/byacc/mstring.c b/byacc/mstring.c
index df5c0f5..b975e34 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -111,32 +111,24 @@ mputchar(struct mstring *s, int ch)
 }
 
 struct mstring *
-msnew(void)
+msnew(byacc_t* S)
 {
     struct mstring *n = TMALLOC(struct mstring, 1);
 
-    if (n)
-    {
-	if ((n->base = n->ptr = MALLOC(HEAD)) != 0)
-	{
-	    n->end = n->base + HEAD;
-	}
-	else
-	{
-	    free(n);
-	    n = 0;
-	}
-    }
+    NO_SPACE(n);
+    n->base = n->ptr = MALLOC(HEAD);
+    NO_SPACE(n->base);
+    n->end = n->base + HEAD;
     return n;
 }
 
 struct mstring *
-msrenew(char *value)
+msrenew(byacc_t* S, char *value)
 {
     struct mstring *r = 0;
     if (value != 0)
     {
-	r = msnew();
+	r = msnew(S);
 	r->base = value;
 	r->end = value + strlen(value);
 	r->ptr = r->end;
@@ -145,13 +137,14 @@ msrenew(char *value)
 }
 
 char *
-msdone(struct mstring *s)
+msdone(byacc_t* S, struct mstring *s)
 {
     char *r = 0;
     if (s)
     {
 	mputc(s, 0);
 	r = s->base;
+	NO_SPACE(r);
 	free(s);
     }
     return r;
diff --git a/byacc/reader.c b/byacc/reader.c
index c0787e4..9ffbeca 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -622,7 +622,7 @@ copy_ident(byacc_t* S)
 static char *
 copy_string(byacc_t* S, int quote)
 {
-    struct mstring *temp = msnew();
+    struct mstring *temp = msnew(S);
     struct ainfo a;
 
     begin_ainfo(a, 1);
@@ -635,7 +635,7 @@ copy_string(byacc_t* S, int quote)
 	if (c == quote)
 	{
 	    end_ainfo(a);
-	    return msdone(temp);
+	    return msdone(S, temp);
 	}
 	if (c == '\n')
 	    unterminated_string(S, &a);
@@ -656,7 +656,7 @@ copy_string(byacc_t* S, int quote)
 static char *
 copy_comment(byacc_t* S)
 {
-    struct mstring *temp = msnew();
+    struct mstring *temp = msnew(S);
     int c;
 
     c = *S->cptr;
@@ -689,7 +689,7 @@ copy_comment(byacc_t* S)
 		mputc(temp, '/');
 		++S->cptr;
 		end_ainfo(a);
-		return msdone(temp);
+		return msdone(S, temp);
 	    }
 	    if (c == '\n')
 	    {
@@ -699,7 +699,7 @@ copy_comment(byacc_t* S)
 	    }
 	}
     }
-    return msdone(temp);
+    return msdone(S, temp);
 }
 
 static int
@@ -783,11 +783,11 @@ copy_code(byacc_t* S)
     S->code_lines[pos].name = ygv_code_keys[pos];
     if ((cline = (int)S->code_lines[pos].num) != 0)
     {
-	code_mstr = msrenew(S->code_lines[pos].lines);
+	code_mstr = msrenew(S, S->code_lines[pos].lines);
     }
     else
     {
-	code_mstr = msnew();
+	code_mstr = msnew(S);
     }
     cline++;
     if (!S->lflag)
@@ -820,7 +820,7 @@ copy_code(byacc_t* S)
 		    mputc(code_mstr, '\n');
 		    cline++;
 		}
-		S->code_lines[pos].lines = msdone(code_mstr);
+		S->code_lines[pos].lines = msdone(S, code_mstr);
 		S->code_lines[pos].num = (size_t)cline;
 		return;
 	    }
@@ -2174,7 +2174,7 @@ expand_rules(byacc_t* S)
 static char *
 copy_args(byacc_t* S, int *alen)
 {
-    struct mstring *s = msnew();
+    struct mstring *s = msnew(S);
     int depth = 0, len = 1;
     char c, quote = 0;
     struct ainfo a;
@@ -2224,7 +2224,7 @@ copy_args(byacc_t* S, int *alen)
     if (alen)
 	*alen = len;
     end_ainfo(a);
-    return msdone(s);
+    return msdone(S, s);
 }
 
 static char *
@@ -2339,7 +2339,7 @@ static char *
 compile_arg(byacc_t* S, char **theptr, char *yyvaltag)
 {
     char *p = *theptr;
-    struct mstring *c = msnew();
+    struct mstring *c = msnew(S);
     int i, n;
     Value_t *offsets = NULL, maxoffset;
     bucket **rhs;
@@ -2437,7 +2437,7 @@ compile_arg(byacc_t* S, char **theptr, char *yyvaltag)
     *theptr = p;
     if (maxoffset > 0)
 	FREE(offsets);
-    return msdone(c);
+    return msdone(S, c);
 }
 
 static int
@@ -3256,7 +3256,7 @@ get_code(byacc_t* S, struct ainfo *a, const char *loc)
     int c;
     int depth;
     char *tag;
-    struct mstring *code_mstr = msnew();
+    struct mstring *code_mstr = msnew(S);
 
     if (!S->lflag)
 	msprintf(S, code_mstr, S->line_format, S->lineno, S->input_file_name);
@@ -3363,7 +3363,7 @@ get_code(byacc_t* S, struct ainfo *a, const char *loc)
 	goto loop;
     }
   out:
-    return msdone(code_mstr);
+    return msdone(S, code_mstr);
 }
 
 static void
@@ -3464,7 +3464,7 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
     int c;
     int quote;
     int depth;
-    struct mstring *new_code = msnew();
+    struct mstring *new_code = msnew(S);
     char *codeptr = code;
 
     depth = 0;
@@ -3500,7 +3500,7 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
     case R_CURL:
 	if (--depth > 0)
 	    goto loop;
-	return msdone(new_code);
+	return msdone(S, new_code);
 
     case '\'':
     case '"':
-- 
2.43.0


From 91aac23522d288c3b0853cc832ef0e8fc78f71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 07/26] fix: lemon: test the remaining allocations before using
 them

---
 lemon/lemon.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a61b451..96c66e0 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1362,7 +1362,9 @@ static int resolve_conflict(
 
 /* Return a pointer to a new configuration */
 PRIVATE struct config *newconfig(struct lemon *lemp){
-  return (struct config*)calloc(1, sizeof(struct config));
+  struct config *cfp = (struct config*)calloc(1, sizeof(struct config));
+  MemoryCheck(cfp);
+  return cfp;
 }
 
 /* The configuration "old" is no longer used */
@@ -1764,6 +1766,7 @@ int main(int argc, char **argv){
   Symbol_new(&lem, "{default}");
   lem.nsymbol = Symbol_count(&lem);
   lem.symbols = Symbol_arrayof(&lem);
+  MemoryCheck(lem.symbols);
   for(i=0; i<lem.nsymbol; i++) lem.symbols[i]->index = i;
   qsort(lem.symbols,lem.nsymbol,sizeof(struct symbol*), Symbolcmpp);
   for(i=0; i<lem.nsymbol; i++) lem.symbols[i]->index = i;
@@ -1820,6 +1823,7 @@ int main(int argc, char **argv){
     lem.nstate = 0;
     FindStates(&lem);
     lem.sorted = State_arrayof(&lem);
+    MemoryCheck(lem.sorted);
 
     /* Tie up loose ends on the propagation links */
     FindLinks(&lem);
@@ -2524,11 +2528,13 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         if( msp->type!=MULTITERMINAL ){
           struct symbol *origsp = msp;
           msp = (struct symbol *) calloc(1,sizeof(*msp));
+          MemoryCheck(msp);
           memset(msp, 0, sizeof(*msp));
           msp->type = MULTITERMINAL;
           msp->nsubsym = 1;
           msp->id = lem->lastSymId++;
           msp->subsym = (struct symbol **) calloc(1,sizeof(struct symbol*));
+          MemoryCheck(msp->subsym);
           msp->subsym[0] = origsp;
           msp->name = origsp->name;
           psp->rhs[psp->nrhs-1] = msp;
@@ -2536,6 +2542,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         msp->nsubsym++;
         msp->subsym = (struct symbol **) realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
+        MemoryCheck(msp->subsym);
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, &x[1]);
         if( ISLOWER(x[1]) || ISLOWER(msp->subsym[0]->name[0]) ){
           ErrorMsg(psp->filename,psp->tokenlineno,
@@ -2757,6 +2764,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           n += nLine + lemonStrlen(psp->filename) + nBack;
         }
         *psp->declargslot = (char *) realloc(*psp->declargslot, n);
+        MemoryCheck(*psp->declargslot);
         zBuf = *psp->declargslot + nOld;
         if( addLineMacro ){
           if( nOld && zBuf[-1]!='\n' ){
@@ -2872,6 +2880,7 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
         msp->nsubsym++;
         msp->subsym = (struct symbol **) realloc(msp->subsym,
           sizeof(struct symbol*)*msp->nsubsym);
+        MemoryCheck(msp->subsym);
         if( !ISUPPER(x[0]) ) x++;
         msp->subsym[msp->nsubsym-1] = Symbol_new(lem, x);
       }else{
-- 
2.43.0


From 58837e999fc171de571d1a4c6f8647eaab211792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 08/26] fix: lemon: do not write the SQL description when its
 file cannot be opened

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 96c66e0..6e3a27c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4668,6 +4668,7 @@ void ReportSQL(
   int b, i, j, first_symbol;
 
   sql = file_open(lemp, ".sql", "wb");
+  if( sql==0 ) return;
 
   fprintf(sql,
     "BEGIN;\n"
-- 
2.43.0


From 6588903e0aed1a509086183d5fe835a3b89bc492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 09/26] fix: byacc: skip symbols without an associativity in
 the SQL precedence table

---
 byacc/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 9ffbeca..a4c793c 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4924,12 +4924,13 @@ print_grammar_sql(byacc_t* S)
             if(prec == k && prec > 0) {
                 const char *sym_name = S->symbol_name[i];
                 if(sym_name[0] != '$') {
+                    const char *assoc_name = get_prec_name(S, i);
+                    if(!assoc_name) continue;
                     if(b==0) {
                         fprintf(f,
                            "INSERT INTO precedence(id,prec,assoc)"
                            " VALUES\n");
                     }
-                    const char *assoc_name = get_prec_name(S, i);
                     fprintf(f,
                        " %s(%d,%d,'%c')",
                        (b > 0) ? "," : " ", i, prec, toupper(assoc_name[0])
-- 
2.43.0


From a798c2ab21cb84f3584575302d318f34299b9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 10/26] fix: lemon: record a precedence mark as declared only
 when its symbol is recorded

---
 lemon/lemon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 6e3a27c..71a2a39 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2412,9 +2412,10 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
           "to follow the previous rule.");
         psp->errorcnt++;
       }else{
-        if(!psp->gp->ignorePrec)
+        if(!psp->gp->ignorePrec){
             psp->prevrule->precsym = Symbol_new(lem, x);
             psp->prevrule->precsym_decl = LEMON_TRUE;
+        }
       }
       psp->state = PRECEDENCE_MARK_2;
       break;
-- 
2.43.0


From e3c24a5bd49fd10fde4c06a04c72834f6e056b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 11/26] fix: lemon: exit with status 1 on errors, not with
 their number

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 71a2a39..a867168 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1755,7 +1755,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
-  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt);
+  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt ? 1 : 0);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
     exit(1);
-- 
2.43.0


From e72f607903ac9f903e2160d60878ac271d821424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 12/26] fix: byacc: take any number of argument types in a
 %type declaration

---
 byacc/reader.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index a4c793c..dd7a486 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1814,8 +1814,9 @@ declare_expect(byacc_t* S, int assoc)
 static void
 declare_argtypes(byacc_t* S, bucket *bp)
 {
-    char *tags[MAXARGS];
+    char **tags = NULL;
     int args = 0;
+    int maxargs = 0;
 
     if (bp->args >= 0)
 	retyped_warning(S, bp->name);
@@ -1827,6 +1828,12 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	    unexpected_EOF(S);
 	if (c != '<')
 	    syntax_error(S, S->lineno, S->line, S->cptr);
+	if (args >= maxargs)
+	{
+	    maxargs += MAXARGS;
+	    tags = TREALLOC(char *, tags, maxargs);
+	    NO_SPACE(tags);
+	}
 	tags[args++] = get_tag(S);
 	c = nextc(S);
 	if (c == R_PAREN)
@@ -1845,6 +1852,7 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	bp->argtags[args] = tags[args];
 	bp->argnames[args] = NULL;
     }
+    FREE(tags);
 }
 #endif
 
-- 
2.43.0


From 81216185ed1c3aad2c934b089c6196536f780e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 13/26] fix: byacc: name quoted and unprintable character
 tokens within the name tables

---
 byacc/reader.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index dd7a486..fefc5c8 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4254,27 +4254,29 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
 {
     int ch;
     if(tkname[0] == '\'') {
-        if(tkname[2] == '\'') {
-            ch = tkname[1];
+        if(tkname[1] != '\\') {
+            ch = UCH(tkname[1]);
             if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
             else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        }            
-        else if(tkname[3] == '\'') {
+        }
+        else {
             ch = tkname[2];
             switch(ch) {
+                case 'a': ch = 7; break;
+                case 'b': ch = '\b'; break;
                 case 'n': ch = '\n'; break;
                 case 't': ch = '\t'; break;
                 case 'f': ch = '\f'; break;
                 case 'r': ch = '\r'; break;
                 case 'v': ch = '\v'; break;
                 case '\\': ch = '\\'; break;
+                case '\'': ch = '\''; break;
                 default:
                     ch = -1;
             }
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        } else
-            snprintf(*buf, sizeof(char64_t), "Tk_%*s", (int)strlen(tkname)-2, tkname+1);            
+            if(ch >= 0) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
+            else snprintf(*buf, sizeof(char64_t), "Tk_%.*s", (int)strlen(tkname)-3, tkname+2);
+        }
     }
     else if(tkname[0] == '"') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
@@ -4858,7 +4860,7 @@ print_grammar_carburetta(byacc_t* S)
 static const char *escape_sql(char64_t *buf, const char *tkname)
 {
     int i, i2;
-    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-1) && tkname[i2]; ++i, ++i2) {
+    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-2) && tkname[i2]; ++i, ++i2) {
         switch(tkname[i2]) {
             case '\'':
                 (*buf)[i++] = tkname[i2];
-- 
2.43.0


From 425b08af7084a50e80e7db2b40c6c7da9a8918f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:21 +0000
Subject: [PATCH 14/26] fix: lemon: size the template name by the grammar's
 name

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a867168..4b43e0b 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4006,7 +4006,7 @@ PRIVATE void tplt_skip_header(FILE *in)
 ** a pointer to the opened file. */
 PRIVATE FILE *tplt_open(struct lemon *lemp)
 {
-  char buf[1000];
+  char *buf;
   FILE *in;
   char *tpltname;
   char *toFree = 0;
@@ -4030,6 +4030,8 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     return in;
   }
 
+  buf = (char*)malloc( lemonStrlen(lemp->filename) + 4 );
+  MemoryCheck(buf);
   cp = strrchr(lemp->filename,'.');
   if( cp ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
@@ -4047,6 +4049,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     fprintf(stderr,"Can't find the parser driver template file \"%s\".\n",
     lemp->templatename);
     lemp->errorcnt++;
+    free(buf);
     return 0;
   }
   in = fopen(tpltname,"rb");
@@ -4055,6 +4058,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     lemp->errorcnt++;
   }
   free(toFree);
+  free(buf);
   return in;
 }
 
-- 
2.43.0


From 7c8bf0dcc7cc8d560167b7bf2766826e59be6a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 15/26] fix: lemon: size the overwrite comment by its labels

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 4b43e0b..f184edb 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4231,7 +4231,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
   char lhsdirect;        /* True if LHS writes directly into stack */
   char used[MAXRHS];     /* True for each RHS element which is used */
   char zLhs[50];         /* Convert the LHS symbol into this string */
-  char zOvwrt[900];      /* Comment that to allow LHS to overwrite RHS */
+  char *zOvwrt = 0;      /* Comment that to allow LHS to overwrite RHS */
   StrAppendBuffer sa_buf;
   memset(&sa_buf, 0, sizeof(sa_buf));
 
@@ -4279,6 +4279,9 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       lemp->errorcnt++;
     }
   }else{
+    zOvwrt = (char*)malloc( lemonStrlen(rp->lhsalias)
+                            + lemonStrlen(rp->rhsalias[0]) + 20 );
+    MemoryCheck(zOvwrt);
     lemon_sprintf(zOvwrt, "/*%s-overwrites-%s*/",
                   rp->lhsalias, rp->rhsalias[0]);
     zSkip = strstr(rp->code, zOvwrt);
@@ -4413,6 +4416,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     rp->noCode = 0;
   }
   free_StrAppendBuffer(&sa_buf);
+  free(zOvwrt);
 
   return rc;
 }
-- 
2.43.0


From 5ba1b4566e7ad8be674ced60a5735d83083601a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 16/26] fix: lemon: bound the header comparison line by its
 buffer

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f184edb..cea1857 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5543,7 +5543,7 @@ void ReportHeader(struct lemon *lemp)
   if( in ){
     int nextChar;
     for(i=1; i<lemp->nterminal && fgets(line,LINESIZE,in); i++){
-      lemon_sprintf(pattern,"#define %s%-30s %3d\n",
+      snprintf(pattern,LINESIZE,"#define %s%-30s %3d\n",
                     prefix,lemp->symbols[i]->name,i);
       if( strcmp(line,pattern) ) break;
     }
-- 
2.43.0


From ae3cc0f0716e58a46c480c9e6862b254049b9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:21 +0000
Subject: [PATCH 17/26] fix: lemon: ignore placeholder options written with '='
 as well

---
 lemon/lemon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index cea1857..fa4416c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2124,6 +2124,8 @@ static int handleswitch(struct lemon *lem, int i, FILE *err)
       errline(lem, i,0,err);
     }
     errcnt++;
+  }else if( lem->op[j].arg==0 ){
+    /* Ignore this option */
   }else{
     cp++;
     switch( lem->op[j].type ){
-- 
2.43.0


From 237c21568c17032d84e01fc8d5fce3ea50c3860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:14 +0000
Subject: [PATCH 18/26] fix: lemon: enforce %nonassoc, also when several rules
 can be reduced

A nonassociative token's shift became an error action, but the reduction on
the same token was kept: the state could then be entered by a shift-reduce
action (or, uncompressed, the reduction overwrote the error), so 'a EQ b EQ c'
was accepted.  A second reduction on that token hit an assertion.
---
 lemon/lemon.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index fa4416c..cab08cf 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1302,7 +1302,7 @@ static int resolve_conflict(
     apy->type = SSCONFLICT;
     errcnt++;
   }
-  if( apx->type==SHIFT && apy->type==REDUCE ){
+  if( (apx->type==SHIFT || apx->type==ERROR) && apy->type==REDUCE ){
     spx = apx->sp;
     spy = apy->x.rp->precsym;
     if( spy==0 || spx->prec<0 || spy->prec<0 ){
@@ -1320,7 +1320,8 @@ static int resolve_conflict(
       apx->type = SH_RESOLVED;
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
-      apx->type = ERROR;
+      apx->type = ERROR;         /* Nonassociative: neither one is done */
+      apy->type = RD_RESOLVED;
     }
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
@@ -5632,7 +5633,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From d1f8408d97c3f6feca9119e4d23adfbb4ca523f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 19/26] fix: lempar: count the entry an empty rule pushes in
 the stack's high-water mark

---
 lemon/lempar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..1eeb68b 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -905,10 +905,10 @@ void Parse(
       ** enough on the stack to push the LHS value */
       if( yyRuleInfoNRhs[yyruleno]==0 ){
 #ifdef YYTRACKMAXSTACKDEPTH
-        if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
+        if( (int)(yypParser->yytos - yypParser->yystack)>=yypParser->yyhwm ){
           yypParser->yyhwm++;
           assert( yypParser->yyhwm ==
-                  (int)(yypParser->yytos - yypParser->yystack));
+                  (int)(yypParser->yytos - yypParser->yystack)+1 );
         }
 #endif
 #if YYSTACKDEPTH>0 
-- 
2.43.0


From 4c39d7decdd224495e8faf8a260f1eb7e69b3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:31 +0000
Subject: [PATCH 20/26] fix: lemon: -r left the number of states and their
 action counts unset, so the generated parser had no tables

---
 lemon/lemon.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index cab08cf..09f7e45 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1841,7 +1841,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5718,7 +5718,7 @@ static int stateResortCompare(const void *a, const void *b){
 ** Renumber and resort states so that states with fewer choices
 ** occur at the end.  Except, keep state 0 as the first state.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int noResort)
 {
   int i;
   struct state *stp;
@@ -5744,8 +5744,10 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
-  qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
-        stateResortCompare);
+  if( !noResort ){
+    qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
+          stateResortCompare);
+  }
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
   }
-- 
2.43.0


From 2abe88653a37ac7e33be6b6722f98eef4372789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:41 +0000
Subject: [PATCH 21/26] fix: byacc: a 0xff byte in the grammar was taken for
 its end, what follows was dropped without a message

---
 byacc/reader.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index fefc5c8..17543fa 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -433,7 +433,7 @@ next_inline(byacc_t* S)
 
 	default:
 	    S->cptr = s;
-	    return (*s);
+	    return (UCH(*s));
 	}
     }
 }
@@ -728,7 +728,7 @@ copy_code(byacc_t* S)
     /* read %code <keyword> { */
     for (;;)
     {
-	c = *++S->cptr;
+	c = UCH(*++S->cptr);
 	if (c == EOF)
 	    unexpected_EOF(S);
         if (c == '\0') {
@@ -1778,7 +1778,7 @@ declare_expect(byacc_t* S, int assoc)
      * Stay away from nextc - doesn't
      * detect EOL and will read to EOF.
      */
-    c = *++S->cptr;
+    c = UCH(*++S->cptr);
     if (c == EOF)
 	unexpected_EOF(S);
 
@@ -1803,7 +1803,7 @@ declare_expect(byacc_t* S, int assoc)
 	}
 	else
 	{
-	    c = *++S->cptr;
+	    c = UCH(*++S->cptr);
 	    if (c == EOF)
 		unexpected_EOF(S);
 	}
-- 
2.43.0


From e9891e7d11eeaa9c1cbec1320d15aad10339cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:41 +0000
Subject: [PATCH 22/26] fix: byacc: character classes of plain chars, a byte
 above 0x7f is a negative argument

---
 byacc/reader.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 17543fa..9f144a1 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -972,7 +972,7 @@ copy_union(byacc_t* S)
 		puts_both(S, filler_buf);
 	    }
 	}
-	else if (isspace(c))
+	else if (isspace(UCH(c)))
 	{
 	    if (filler_len >= sizeof(filler_buf) - 1)
 	    {
@@ -1141,7 +1141,7 @@ save_param(byacc_t* S, int k, char *buffer, int name, int type2)
     buffer[type2] = '\0';
     (void)trim_blanks(p->type2);
 
-    if (!IS_ALNUM(buffer[name]))
+    if (!IS_ALNUM(UCH(buffer[name])))
     {
 	int n;
 	for (n = name - 1; n >= 0; --n)
@@ -4286,7 +4286,7 @@ static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
             (*buf)[3] = '_';
     }
-    else if(islower(tkname[0])) {
+    else if(islower(UCH(tkname[0]))) {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
     }
     else
@@ -4307,7 +4307,7 @@ static const char *get_lemon_rule_name(char64_t *buf, const char *tkname)
     else if(tkname[0] == '_') {
             snprintf(*buf, sizeof(char64_t), "z%s", tkname);
     }
-    else if(isupper(tkname[0])) {
+    else if(isupper(UCH(tkname[0]))) {
             snprintf(*buf, sizeof(char64_t), "l_%s", tkname);
     }
     else
-- 
2.43.0


From 2c29b70b98ede59cc7691cfd8a85c42734d74db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:32 +0000
Subject: [PATCH 23/26] fix: lemon: stop at the end of the file inside a
 comment or string of a code block

When the file ended inside a comment or a string of a {...} block the inner
loop stopped at the terminating NUL and the outer loop then stepped over it,
reading past the end of the file's text.
---
 lemon/lemon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 09f7e45..78a9344 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3177,10 +3177,12 @@ void Parse(struct lemon *gp)
             prevc = c;
             cp++;
           }
+          if( c==0 ) break;              /* The file ends inside the comment */
         }else if( c=='/' && cp[1]=='/' ){  /* Skip C++ style comments too */
           cp = &cp[2];
           while( (c= *cp)!=0 && c!='\n' ) cp++;
-          if( c ) lineno++;
+          if( c==0 ) break;
+          lineno++;
         }else if( c=='\'' || c=='\"' ){    /* String a character literals */
           int startchar, prevc;
           startchar = c;
@@ -3190,6 +3192,7 @@ void Parse(struct lemon *gp)
             if( prevc=='\\' ) prevc = 0;
             else              prevc = c;
           }
+          if( c==0 ) break;              /* The file ends inside the string */
         }
       }
       if( c==0 ){
-- 
2.43.0


From e938a730a874e6bc7d8f4d1dd8552ed37b6e30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:32 +0000
Subject: [PATCH 24/26] fix: lemon: tplt_print looked at the byte before an
 empty string

---
 lemon/lemon.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 78a9344..84a302a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4083,13 +4083,15 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
+  char c = 0;                /* The last character written */
   if( str==0 ) return;
   while( *str ){
-    putc(*str,out);
-    if( *str=='\n' ) (*lineno)++;
+    c = *str;
+    putc(c,out);
+    if( c=='\n' ) (*lineno)++;
     str++;
   }
-  if( str[-1]!='\n' ){
+  if( c!='\n' ){
     putc('\n',out);
     (*lineno)++;
   }
-- 
2.43.0


From 6100cfd3b5b6287efe499006168ce2adb2147696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:53 +0000
Subject: [PATCH 25/26] fix: lemon: translate_code ran over the end of code
 that ends in a label

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 84a302a..743154a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4356,6 +4356,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
+      if( *cp==0 ) break;    /* The code ends with the label just replaced */
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 8384fd3cf1f1e9402353e01f392653f98f38f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:15 +0000
Subject: [PATCH 26/26] fix: byacc: the file prefix was freed before open_files
 wrote it to the graph

---
 byacc/main.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/byacc/main.c b/byacc/main.c
index c28f85c..72d8254 100644
--- a/byacc/main.c
+++ b/byacc/main.c
@@ -682,10 +682,7 @@ create_file_names(byacc_t* S)
 	CREATE_FILE_NAME(S->sql_file_name, SQL_SUFFIX);
     }
 
-    if (suffix != NULL)
-    {
-	FREE(S->file_prefix);
-    }
+    /* file_prefix stays: open_files() writes it as the name of the graph */
 }
 
 #if USE_MKSTEMP
-- 
2.43.0

