From ffb28191a652bb9c3686afd99ed2edeaf3fa45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:32 +0000
Subject: [PATCH 01/95] fix: evaluate the expression of a return statement on
 every execution

eval_return() overwrote the expression in the syntax tree with its first
value, so every later execution of the same statement returned that value
again.
---
 src/evaluate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..8a1b5bd 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,13 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Don't store the value in `t' itself, since that is the syntax tree which
+     * will be evaluated again the next time that the function is called. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From 3e6b5378ff67d95206dc2dde970c3de57df023ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 02/95] fix: honour break and return in if statements and
 unbraced bodies

A break inside an if statement did not leave the loop, leaving a loop by
break did not pop the scope of the loop body, and a return or break that
was the unbraced body of an if, while or for was ignored.
---
 src/c.lang     |  1 -
 src/evaluate.c | 95 +++++++++++++++++++++++++++++---------------------
 2 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..ad1a96f 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -232,7 +232,6 @@
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
-          ("SHOULD_BREAK" flag)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 8a1b5bd..e0c2a88 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -42,7 +42,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -1695,8 +1695,6 @@ static tree eval_gteq(tree t, int depth)
 
 static tree eval_break(tree t, int depth)
 {
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
     return t;
 }
 
@@ -1978,6 +1976,8 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    tree break_stmt;
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
@@ -1994,13 +1994,12 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        break_stmt = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (break_stmt)
+            break;
+
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
@@ -2010,6 +2009,8 @@ static tree eval_loop_for(tree t, int depth)
 
 static tree eval_loop_while(tree t, int depth)
 {
+    tree break_stmt;
+
     do {
 
         tree cond_result = __evaluate_1(tWLOOP_COND(t),
@@ -2024,13 +2025,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        break_stmt = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (break_stmt)
+            break;
+
     } while (1);
 
     return NULL;
@@ -2051,19 +2051,21 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
+    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth),
+        break_stmt;
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        break_stmt = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        break_stmt = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    /* Let the enclosing loop know if a break statement was executed. */
+    return break_stmt;
 }
 
 static tree eval_return(tree t, int depth)
@@ -2716,39 +2718,54 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+static void handle_return(tree ret)
 {
-    tree i;
+    tree fn_ctx = cur_ctx;
 
-    if (!head)
-        return;
+    while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+        fn_ctx = tECTX_PARENT_CTX(fn_ctx);
 
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+    /* If we reach the top of the evaluation stack, we have been executing a
+     * cscript and the top-level of it has called return. In that case, just
+     * return the result.
+     */
+    if (!fn_ctx)
+        cscript_exit(tRET_EXP(ret));
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+    tECTX_RETVAL(fn_ctx) = tRET_EXP(ret);
+    longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+}
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+/* Evaluate a statement or a chain of statements. If a break statement was
+ * executed, the remaining statements of the chain are skipped and the T_BREAK
+ * object is returned, otherwise NULL is returned. */
+static tree __evaluate(tree head, int depth)
+{
+    tree i, result;
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+    if (!head)
+        return NULL;
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+    if (!is_CHAIN_HEAD(head)) {
+        result = __evaluate_1(head, depth);
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+        if (is_T_RETURN(result))
+            handle_return(result);
+
+        return is_T_BREAK(result) ? result : NULL;
+    }
+
+    for_each_tree(i, head) {
+        result = __evaluate_1(i, depth);
+
+        if (is_T_RETURN(result))
+            handle_return(result);
 
         if (is_T_BREAK(result))
-            return;
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From dd70f3035500603d70cdfd52d8f6e64e86de5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 03/95] fix: execute compound statements nested in blocks

The chain of a nested compound statement was linked into the chain of the
enclosing block and never evaluated, and it had no scope of its own.
---
 src/c.lang     |  2 ++
 src/evaluate.c | 12 ++++++++++++
 src/parser.m4  | 21 +++++++++++++++++++++
 3 files changed, 35 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index ad1a96f..c9647d3 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -139,6 +139,8 @@
 (deftype T_VOLATILE "volatile type qualifier")
 
 (deftype T_EMPTY "Empty block")
+(deftype T_BLOCK "Compound statement" "tBLOCK"
+         ("STMTS"))
 (deftype T_EXPR_LIST "Expression List" "tEXPR_LIST"
          ("CHAIN"))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index e0c2a88..0bf87dd 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,6 +2068,17 @@ static tree eval_if(tree t, int depth)
     return break_stmt;
 }
 
+static tree eval_block(tree t, int depth)
+{
+    tree break_stmt;
+
+    push_ctx("Block");
+    break_stmt = __evaluate(tBLOCK_STMTS(t), depth + 1);
+    pop_ctx();
+
+    return break_stmt;
+}
+
 static tree eval_return(tree t, int depth)
 {
     /* Don't store the value in `t' itself, since that is the syntax tree which
@@ -2690,6 +2701,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_LOOP_WHILE: result = eval_loop_while(t, depth + 1); break;
     case T_INFIX:      result = eval_infix(t, depth + 1);      break;
     case T_IF:         result = eval_if(t, depth + 1);         break;
+    case T_BLOCK:      result = eval_block(t, depth + 1);      break;
     case T_RETURN:     result = eval_return(t, depth + 1);     break;
     case T_BREAK:      result = eval_break(t, depth + 1);      break;
     case T_DECL_COMPOUND:result = eval_decl_compound(t, depth + 1);break;
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..e023e03 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -63,6 +63,21 @@ CSCRIPT_ONLY
     {
         TARGET()_current_file = fname;
     }
+
+    /* The chain of a compound statement can not be a member of another chain,
+     * therefore wrap it up if it is itself an item of a list of statements. */
+    static tree make_block(tree stmt, YYLTYPE locus)
+    {
+        tree block;
+
+        if (!is_CHAIN_HEAD(stmt))
+            return stmt;
+
+        block = tree_make(T_BLOCK);
+        tBLOCK_STMTS(block) = stmt;
+        set_locus(block, locus);
+        return block;
+    }
 ALL_TARGETS
 
 %}
@@ -1454,6 +1469,9 @@ CSCRIPT_ONLY
     block_item
     : declaration
     | statement
+    {
+        $$ = make_block($1, @1);
+    }
     ;
 
     selection_statement
@@ -1587,6 +1605,9 @@ CSCRIPT_ONLY
     cscript_external_declaration
     : external_declaration
     | statement
+    {
+        $$ = make_block($1, @1);
+    }
     ;
 
     cscript_translation_unit
-- 
2.43.0


From 3b9e1340eee03ace34fa47224c1e2341bc36446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 04/95] fix: scope of for loop declarations and omitted for
 conditions

A variable declared by the init clause of a for loop was declared in the
enclosing scope (so that a second loop using the same name was an error),
and an omitted condition crashed the interpreter.
---
 src/evaluate.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0bf87dd..2a2039a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1978,20 +1978,26 @@ static tree eval_loop_for(tree t, int depth)
 {
     tree break_stmt;
 
+    /* The scope of anything declared by the init clause is the loop. */
+    push_ctx("For Loop Init");
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
+        /* An omitted condition is always true. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            tree cond_result = __evaluate_1(tFLOOP_COND(t),
+                                            depth + 1);
 
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            cond_result = convert_to_comparable_type(cond_result, depth + 1);
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
-            break;
+            if (!mpz_get_si(tINT_VAL(cond_result)))
+                break;
+        }
 
         push_ctx("For Loop");
         break_stmt = __evaluate(tFLOOP_STMTS(t), depth + 1);
@@ -2004,6 +2010,8 @@ static tree eval_loop_for(tree t, int depth)
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
-- 
2.43.0


From e243e5f53185a4c88219381a9a95630a12a40c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 05/95] fix: convert values to the destination type on
 assignment and cast

Assignments read eight bytes of any live variable whatever its type, so the
sign or upper bytes of narrower sources were garbage and integer/floating
conversions reinterpreted bits. Unsigned 64 bit values lost their top bit,
floating constants could not be converted to integers, and the value of an
assignment was the unconverted right hand side.
---
 src/evaluate.c | 134 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 96 insertions(+), 38 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2a2039a..cab4c21 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -321,13 +321,18 @@ static tree make_int_from_live_var(tree var)
         SETINT(D_T_INT);
         SETINT(D_T_LONG);
         SETINT(D_T_LONGLONG);
-        SETINT(D_T_UCHAR);
-        SETINT(D_T_USHORT);
-        SETINT(D_T_UINT);
-        SETINT(D_T_ULONG);
-        SETINT(D_T_ULONGLONG);
         SETINT(D_T_PTR);
 #undef SETINT
+#define SETUINT(type)                                                      \
+        case type:                                                         \
+            mpz_init_set_ui(tINT_VAL(ret), tLV_VAL(var)->type);            \
+            break;
+        SETUINT(D_T_UCHAR);
+        SETUINT(D_T_USHORT);
+        SETUINT(D_T_UINT);
+        SETUINT(D_T_ULONG);
+        SETUINT(D_T_ULONGLONG);
+#undef SETUINT
     default:
         eval_die(var, "Could not create integer type from live var.");
     }
@@ -1142,22 +1147,53 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
-static void assign_integer(tree var, tree right)
+/* Convert an arithmetic (or pointer) value to an integer as C does, floating
+ * point values are truncated towards zero. */
+static tree convert_to_integer(tree t)
 {
-    signed long int val;
+    tree ret;
 
-    /* Obtain the value with which to assign. */
-    switch (TYPE(right))
+    switch (TYPE(t))
     {
     case T_INTEGER:
-         val = mpz_get_si(tINT_VAL(right));
-         break;
+        return t;
+    case T_FLOAT:
+        ret = tree_make(T_INTEGER);
+        mpz_init(tINT_VAL(ret));
+        mpz_set_f(tINT_VAL(ret), tFLOAT_VAL(t));
+        return ret;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
-        break;
+        switch (TYPE(tLV_TYPE(t)))
+        {
+        case D_T_FLOAT:
+            ret = tree_make(T_INTEGER);
+            mpz_init_set_d(tINT_VAL(ret), tLV_VAL(t)->D_T_FLOAT);
+            return ret;
+        case D_T_DOUBLE:
+            ret = tree_make(T_INTEGER);
+            mpz_init_set_d(tINT_VAL(ret), tLV_VAL(t)->D_T_DOUBLE);
+            return ret;
+        case D_T_LONGDOUBLE:
+            ret = tree_make(T_INTEGER);
+            mpz_init_set_d(tINT_VAL(ret), tLV_VAL(t)->D_T_LONGDOUBLE);
+            return ret;
+        default:
+            return make_int_from_live_var(t);
+        }
     default:
-        eval_die(right, "unknown rvalue assignment to integer.\n");
+        eval_die(t, "unknown rvalue assignment to integer.\n");
     }
+}
+
+static void assign_integer(tree var, tree right)
+{
+    tree integer = convert_to_integer(right);
+    unsigned long int val = mpz_get_ui(tINT_VAL(integer));
+
+    /* `mpz_get_ui' ignores the sign, conversions to a narrower type are modulo
+     * the range of that type. */
+    if (mpz_sgn(tINT_VAL(integer)) < 0)
+        val = -val;
 
     switch (TYPE(tLV_TYPE(var))) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)         \
@@ -1173,19 +1209,38 @@ static void assign_integer(tree var, tree right)
 
 static void assign_float(tree var, tree right)
 {
-    double val;
+    /* Every value of every other arithmetic type can be represented exactly by
+     * a long double. */
+    long double val;
 
     /* Obtain the value with which to assign. */
     switch (TYPE(right))
     {
     case T_INTEGER:
-        val = (double)mpz_get_si(tINT_VAL(right));
-         break;
+        if (mpz_sgn(tINT_VAL(right)) < 0)
+            val = mpz_get_si(tINT_VAL(right));
+        else
+            val = mpz_get_ui(tINT_VAL(right));
+        break;
     case T_FLOAT:
         val = (double)mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
+        switch (TYPE(tLV_TYPE(right)))
+        {
+        case D_T_FLOAT:
+            val = tLV_VAL(right)->D_T_FLOAT;
+            break;
+        case D_T_DOUBLE:
+            val = tLV_VAL(right)->D_T_DOUBLE;
+            break;
+        case D_T_LONGDOUBLE:
+            val = tLV_VAL(right)->D_T_LONGDOUBLE;
+            break;
+        default:
+            assign_float(var, make_int_from_live_var(right));
+            return;
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to float.\n");
@@ -1198,6 +1253,9 @@ static void assign_float(tree var, tree right)
     case D_T_DOUBLE:
         tLV_VAL(var)->D_T_DOUBLE = val;
         break;
+    case D_T_LONGDOUBLE:
+        tLV_VAL(var)->D_T_LONGDOUBLE = val;
+        break;
     default:
         eval_die(var, "could not assign to non-float type");
     }
@@ -1225,20 +1283,14 @@ static void assign_ptr(tree var, tree right)
     tLV_VAL(var)->D_T_PTR = ptr;
 }
 
-static tree eval_assign(tree t, int depth)
+/* Store a value in a live variable, converting it to the variable's type. */
+static void assign_value(tree t, tree left, tree right)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
-
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
         break;
-    case D_T_FLOAT ... D_T_DOUBLE:
+    case D_T_FLOAT ... D_T_LONGDOUBLE:
         assign_float(left, right);
         break;
     case D_T_PTR:
@@ -1247,10 +1299,22 @@ static tree eval_assign(tree t, int depth)
     default:
         eval_die(t, "Unknown assignment rvalue type.");
     }
+}
 
-    /* Return the value that was assigned, thereby making an assignment work as
-     * a rvalue. */
-    return right;
+static tree eval_assign(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    assign_value(t, left, right);
+
+    /* Return the value that was assigned (converted to the type of the
+     * lvalue), thereby making an assignment work as a rvalue. */
+    return left;
 }
 
 static void live_var_add(tree var, unsigned long int val)
@@ -1841,15 +1905,9 @@ static tree eval_cast(tree t, int depth)
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
-    if (is_T_INTEGER(source)) {
-        tree lv = make_live_var(dest_type);
-        assign_integer(lv, source);
-        return lv;
-    }
-
-    if (is_T_FLOAT(source)) {
+    if (is_T_INTEGER(source) || is_T_FLOAT(source)) {
         tree lv = make_live_var(dest_type);
-        assign_float(lv, source);
+        assign_value(t, lv, source);
         return lv;
     }
 
-- 
2.43.0


From a367d2ab989a55284bbec04f50e9a94b5e4e64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 06/95] fix: round floating point literals to the nearest
 double

mpf_get_d() truncates, so about half of all literals were one unit in the
last place smaller than the value a C compiler gives them.
---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..f1fcf0a 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -196,7 +196,7 @@ ALL_TARGETS
                                      return IDENTIFIER; }
 
 -?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
--?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+-?[0-9]+\.[0-9]+                mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-- 
2.43.0


From 833dee27535f74f429fa94681984932ba7a8fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 07/95] fix: parse a minus sign that directly precedes a number
 as an operator

The lexer made the sign part of the number, so `a-1' and `a -1' were syntax
errors. Negative constants are now handled by a unary minus operator.
---
 src/lex.m4    |  4 ++--
 src/parser.m4 | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index f1fcf0a..1294ef9 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,8 +195,8 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
--?[0-9]+\.[0-9]+                mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
+[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+[0-9]+\.[0-9]+                mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
diff --git a/src/parser.m4 b/src/parser.m4
index e023e03..a0fc6fb 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -31,6 +31,26 @@ static void set_locus(tree t, YYLTYPE locus)
         tLOCUS(t).file = get_identifier(TARGET()_current_file);
 }
 
+static tree make_unary_minus(tree exp, YYLTYPE locus)
+{
+    tree sub;
+
+    switch (TYPE(exp)) {
+    case T_INTEGER:
+        mpz_neg(tINT_VAL(exp), tINT_VAL(exp));
+        return exp;
+    case T_FLOAT:
+        mpf_neg(tFLOAT_VAL(exp), tFLOAT_VAL(exp));
+        return exp;
+    default:
+        sub = tree_make(T_SUB);
+        tSUB_LHS(sub) = get_integer(0);
+        tSUB_RHS(sub) = exp;
+        set_locus(sub, locus);
+        return sub;
+    }
+}
+
 static void find_ids_to_map_to_typenames(tree decl)
 {
     tree i;
@@ -352,6 +372,10 @@ unary_expression
     set_locus(comp, @1);
     $$ = comp;
 }
+| '-' cast_expression
+{
+    $$ = make_unary_minus($2, @1);
+}
 | SIZEOF unary_expression
 {
     tree szof = tree_make(T_SIZEOF);
-- 
2.43.0


From 20c4e3d90f4f67a303f4d4a9b03a89a5645fece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 08/95] fix: accept a cast as the operand of the unary
 operators ! & * ~

---
 src/parser.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index a0fc6fb..bbbbe73 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -344,28 +344,28 @@ unary_expression
     set_locus(dec, @1);
     $$ = dec;
 }
-| '!' unary_expression
+| '!' cast_expression
 {
     tree negate = tree_make(T_NEGATE);
     tNEGATE_EXP(negate) = $2;
     set_locus(negate, @1);
     $$ = negate;
 }
-| '&' unary_expression
+| '&' cast_expression
 {
     tree addr = tree_make(T_ADDR);
     tADDR_EXP(addr) = $2;
     set_locus(addr, @1);
     $$ = addr;
 }
-| '*' unary_expression
+| '*' cast_expression
 {
     tree deref = tree_make(T_DEREF);
     tDEREF_EXP(deref) = $2;
     set_locus(deref, @1);
     $$ = deref;
 }
-| '~' unary_expression
+| '~' cast_expression
 {
     tree comp = tree_make(T_ONES_COMP);
     tONES_COMP_EXP(comp) = $2;
-- 
2.43.0


From 12f4972a394571c8d3308182cadc3685fd9ecb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 09/95] fix: keep the sign of negative enumerators

---
 src/evaluate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index cab4c21..a2e7532 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2359,7 +2359,7 @@ static tree eval_decl_compound(tree t, int depth)
 static tree eval_enumerator(tree t, int depth)
 {
     tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
-    unsigned int enum_val = 0;
+    long int enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
     if (!tENUM_ENUMS(t))
@@ -2389,7 +2389,7 @@ static tree eval_enumerator(tree t, int depth)
                 convert_to_comparable_type(tASSIGN_RHS(enum_expr), depth);
 
             enum_id = tASSIGN_LHS(enum_expr);
-            enum_val = (unsigned int)mpz_get_ui(tINT_VAL(new_val));
+            enum_val = mpz_get_si(tINT_VAL(new_val));
 
             break;
         }
@@ -2397,7 +2397,11 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
-        mpz_init_set_ui(tINT_VAL(integer), enum_val);
+        /* An enumerated type with negative members needs a signed type. */
+        if (enum_val < 0)
+            TYPE(enum_base_type) = D_T_INT;
+
+        mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
     }
-- 
2.43.0


From b59e0e17b77b7b7b2363f2e034d7ab0426910b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 10/95] fix: truncate integer division towards zero

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a2e7532..c6d64b3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1628,7 +1628,7 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
-- 
2.43.0


From 5b74778a7194c9711b65cc12143339c93d24ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 11/95] fix: right shift of negative values is arithmetic

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c6d64b3..1184e94 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1516,7 +1516,7 @@ static tree eval_rshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_tdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
 
     return ret;
 }
-- 
2.43.0


From d1a228a044c7703436d42a162d84f24ae2d3e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 12/95] fix: treat a parameter list of just void as no
 parameters

Calling a function defined with (void), including main, was an error.
---
 src/parser.m4 | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index bbbbe73..4849ebf 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -31,6 +31,34 @@ static void set_locus(tree t, YYLTYPE locus)
         tLOCUS(t).file = get_identifier(TARGET()_current_file);
 }
 
+/* A parameter list that only consists of `void' denotes a function without
+ * parameters. */
+static tree make_parameters(tree parameters)
+{
+    tree param, specifier;
+    size_t no_params = 0, no_specifiers = 0;
+
+    for_each_tree(param, parameters)
+        no_params++;
+
+    if (no_params != 1)
+        return parameters;
+
+    for_each_tree(param, parameters)
+        break;
+
+    if (!is_T_DECL(param) || tDECL_DECLS(param))
+        return parameters;
+
+    for_each_tree(specifier, tDECL_SPECS(param))
+        no_specifiers++;
+
+    if (no_specifiers == 1 && chain_has_T_VOID_TS(tDECL_SPECS(param)))
+        return NULL;
+
+    return parameters;
+}
+
 static tree make_unary_minus(tree exp, YYLTYPE locus)
 {
     tree sub;
@@ -1111,7 +1139,7 @@ direct_declarator
 {
     tree fn = tree_make(T_FN);
     tFN_DECL(fn) = $1;
-    tFN_ARGS(fn) = $3;
+    tFN_ARGS(fn) = make_parameters($3);
     set_locus(fn, @2);
     $$ = fn;
 }
@@ -1319,7 +1347,7 @@ direct_abstract_declarator
 | '(' parameter_type_list ')'
 {
     tree fn = tree_make(T_FN);
-    tFN_ARGS(fn) = $2;
+    tFN_ARGS(fn) = make_parameters($2);
     set_locus(fn, @1);
     $$ = fn;
 }
@@ -1334,7 +1362,7 @@ direct_abstract_declarator
 {
     tree fn = tree_make(T_FN);
     tFN_DECL(fn) = $1;
-    tFN_ARGS(fn) = $3;
+    tFN_ARGS(fn) = make_parameters($3);
     set_locus(fn, @2);
     $$ = fn;
 }
-- 
2.43.0


From 62dec3060a47327e9fc8a00d6f083dd20174b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 13/95] fix: allow declarations of initialised pointers to be
 evaluated repeatedly

The evaluation of a declaration with an initialiser dropped the pointer
declarators from the syntax tree, so that the second evaluation declared a
variable of the pointed-to type.
---
 src/evaluate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1184e94..cfb7d4c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -811,13 +811,17 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return NULL;
     case T_ASSIGN:
     {
-        tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
+        tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth),
+            assign = tree_make(T_ASSIGN);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
+         * Therefore ret now becomes the LHS of the assignment. Leave `decl'
+         * alone as it could be evaluated again. */
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+        tLOCUS(assign) = tLOCUS(decl);
 
-        __evaluate_1(decl, depth + 1);
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From f15997cc5822d69fc2b6d42acfb1dc3243efc656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 14/95] fix: resolve identifiers in functions lexically

Functions saw the local variables of their callers, and arguments were
evaluated in the scope of the called function, where earlier parameters hid
the caller's variables of the same name.
---
 src/c.lang     |  2 +-
 src/evaluate.c | 47 ++++++++++++++++++++---------------------------
 2 files changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index c9647d3..283b9ed 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -232,7 +232,7 @@
 (deftype CHAIN_HEAD "Tree Chain Head")
 
 (deftype E_CTX "Evaluator Context" "tECTX"
-         ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
+         ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "CALLER_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
diff --git a/src/evaluate.c b/src/evaluate.c
index cfb7d4c..7a03c03 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -23,6 +23,10 @@
 static tree cur_ctx = NULL;
 GC_STATIC_TREE(cur_ctx);
 
+/* The context that holds all file scope declarations. */
+static tree toplevel_ctx = NULL;
+GC_STATIC_TREE(toplevel_ctx);
+
 /* This holds the evaluator state after the evaluation of any #include
  * directives.  */
 static tree include_ctx = NULL;
@@ -100,7 +104,8 @@ static void ctx_backtrace(void)
 
     while (ctx) {
         puts(tID_STR(tECTX_NAME(ctx)));
-        ctx = tECTX_PARENT_CTX(ctx);
+        ctx = tECTX_IS_FN_CALL(ctx) ? tECTX_CALLER_CTX(ctx) :
+            tECTX_PARENT_CTX(ctx);
     }
 }
 
@@ -430,9 +435,18 @@ static tree eval_fn_call(tree t, int depth)
                 arg_vals = tFNCALL_ARGS(t),
                 arg_decl, arg_val, return_val, fn_ctx;
 
+            /* Evaluate the argument values in the scope of the caller, before
+             * anything is declared in the scope of the function. */
+            if (arg_decls)
+                arg_vals = eval_fn_args(arg_vals, depth);
+
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
 
+            /* The function doesn't see the identifiers of its caller. */
+            tECTX_CALLER_CTX(cur_ctx) = tECTX_PARENT_CTX(cur_ctx);
+            tECTX_PARENT_CTX(cur_ctx) = toplevel_ctx;
+
             fn_ctx = cur_ctx;
 
             if (arg_decls) {
@@ -454,40 +468,18 @@ static tree eval_fn_call(tree t, int depth)
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
+                    tree decl_identifier,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
+                    tLOCUS(assign) = tLOCUS(t);
                     __evaluate_1(assign, depth + 1);
                 }
             }
@@ -509,7 +501,7 @@ static tree eval_fn_call(tree t, int depth)
                 return_val = tECTX_RETVAL(cur_ctx);
             }
 
-            pop_ctx();
+            cur_ctx = tECTX_CALLER_CTX(fn_ctx);
 
             return return_val;
         } else {
@@ -2937,5 +2929,6 @@ void eval_init(void)
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
+    toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 484dac63aadff8412bb811ba63597f65f4f4860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 15/95] fix: convert the returned value to the return type of
 the function

The callee's variable itself was returned, whose storage could be freed
while the value was still in use, and whose type was not the return type.
---
 src/evaluate.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7a03c03..7ba9c40 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -230,6 +230,8 @@ tree find_global_identifiers(const char *prefix)
     return chain;
 }
 
+static void assign_value(tree t, tree left, tree right);
+
 static void __map_identifer(tree id, tree t, tree idmap)
 {
     tree new_map = tree_make(E_MAP);
@@ -503,6 +505,16 @@ static tree eval_fn_call(tree t, int depth)
 
             cur_ctx = tECTX_CALLER_CTX(fn_ctx);
 
+            /* Convert the value to the return type of the function. This also
+             * ensures that it isn't one of the variables of the function,
+             * since their storage is freed along with the function's
+             * context. */
+            if (return_val && is_CTYPE(tFN_RET_TYPE(function))) {
+                tree ret_lv = make_live_var(tFN_RET_TYPE(function));
+                assign_value(t, ret_lv, return_val);
+                return ret_lv;
+            }
+
             return return_val;
         } else {
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
-- 
2.43.0


From bb8140ce93da7b94200a4e27cc7e7ba2712fd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 16/95] fix: give string literals static storage duration

A string assigned to a pointer was copied to memory owned by the current
scope, so it was freed when the scope ended even if the pointer outlived it.
---
 src/evaluate.c | 2 +-
 src/gc.c       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7ba9c40..a6ddb96 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1276,7 +1276,7 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        ptr = tSTRING_VAL(right);
         break;
     case T_LIVE_VAR:
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
diff --git a/src/gc.c b/src/gc.c
index 3498258..a01fc73 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -96,7 +96,8 @@ static void dealloc_object(gc_obj obj)
         free(tID_STR(t));
         break;
     case T_STRING:
-        free(tSTRING_VAL(t));
+        /* String literals live until the program ends, pointers to them could
+         * be stored anywhere. */
         break;
     case E_ALLOC:
         free(tALLOC_PTR(t));
-- 
2.43.0


From 1d18948d042b308ae922bd50e1b1da3bad2c4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 17/95] fix: evaluate the lvalue of a compound assignment only
 once

---
 src/evaluate.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a6ddb96..eeca6c6 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1309,10 +1309,42 @@ static void assign_value(tree t, tree left, tree right)
     }
 }
 
+/* The lvalue of a compound assignment is the left hand side of the assignment
+ * as well as of its operator (see `tree_make_binmod'). It must only be evaluated
+ * once, therefore obtain an operator that uses the evaluated lvalue. */
+static tree get_assign_rhs(tree t, tree left)
+{
+    tree rhs = tASSIGN_RHS(t);
+
+    switch (TYPE(rhs)) {
+#define BINMOD(OP, PREFIX)                              \
+    case OP:                                            \
+        if (PREFIX##_LHS(rhs) == tASSIGN_LHS(t)) {      \
+            tree mod = tree_make(OP);                   \
+            PREFIX##_LHS(mod) = left;                   \
+            PREFIX##_RHS(mod) = PREFIX##_RHS(rhs);      \
+            tLOCUS(mod) = tLOCUS(rhs);                  \
+            return mod;                                 \
+        }                                               \
+        break;
+    BINMOD(T_ADD, tADD);
+    BINMOD(T_SUB, tSUB);
+    BINMOD(T_DIV, tDIV);
+    BINMOD(T_LSHIFT, tLSHIFT);
+    BINMOD(T_RSHIFT, tRSHIFT);
+    BINMOD(T_X_OR, tX_OR);
+#undef BINMOD
+    default:
+        break;
+    }
+
+    return rhs;
+}
+
 static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+    tree right = __evaluate_1(get_assign_rhs(t, left), depth + 1);
 
     /* Ensure we have a valid lvalue. */
     if (!is_T_LIVE_VAR(left))
-- 
2.43.0


From 6858cce5047c748e270adb7989aecd550982d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 18/95] fix: increment and decrement pointers by the size of
 their element

Pointers moved by one byte and the result was a plain integer which could
not be dereferenced; floating point variables could not be incremented.
---
 src/evaluate.c | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index eeca6c6..acd8ba6 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1357,9 +1357,24 @@ static tree eval_assign(tree t, int depth)
     return left;
 }
 
+/* The number of bytes that a pointer moves by when 1 is added to it. */
+static size_t get_pointer_step(tree ptr_type, int depth)
+{
+    tree base_type = tDTPTR_EXP(ptr_type);
+
+    if (is_D_T_VOID(base_type) || is_T_FN(base_type))
+        return 1;
+
+    return get_size_of_type(base_type, depth);
+}
+
 static void live_var_add(tree var, unsigned long int val)
 {
     tree type = tLV_TYPE(var);
+
+    if (is_D_T_PTR(type))
+        val *= get_pointer_step(type, 0);
+
     switch (TYPE(type)) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)        \
         case TNAME:                                     \
@@ -1375,6 +1390,10 @@ static void live_var_add(tree var, unsigned long int val)
 static void live_var_sub(tree var, unsigned long int val)
 {
     tree type = tLV_TYPE(var);
+
+    if (is_D_T_PTR(type))
+        val *= get_pointer_step(type, 0);
+
     switch (TYPE(type)) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)        \
         case TNAME:                                     \
@@ -1387,6 +1406,23 @@ static void live_var_sub(tree var, unsigned long int val)
     }
 }
 
+/* The current value of a live variable as an rvalue. */
+static tree get_rvalue(tree var)
+{
+    tree ret;
+
+    switch (TYPE(tLV_TYPE(var))) {
+    case D_T_CHAR ... D_T_ULONGLONG:
+        return make_int_from_live_var(var);
+    case D_T_FLOAT ... D_T_PTR:
+        ret = make_live_var(tLV_TYPE(var));
+        assign_value(var, ret, var);
+        return ret;
+    default:
+        eval_die(var, "Could not obtain the value of live var.\n");
+    }
+}
+
 static tree eval_post_inc(tree t, int depth)
 {
     tree ret;
@@ -1394,7 +1430,7 @@ static tree eval_post_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = get_rvalue(exp);
 
     live_var_add(exp, 1);
 
@@ -1410,7 +1446,7 @@ static tree eval_inc(tree t, int depth)
 
     live_var_add(exp, 1);
 
-    ret = make_int_from_live_var(exp);
+    ret = get_rvalue(exp);
 
     return ret;
 }
@@ -1422,7 +1458,7 @@ static tree eval_post_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = get_rvalue(exp);
     live_var_sub(exp, 1);
     return ret;
 }
@@ -1435,7 +1471,7 @@ static tree eval_dec(tree t, int depth)
         eval_die(t, "Not a valid lvalue.\n");
 
     live_var_sub(exp, 1);
-    ret = make_int_from_live_var(exp);
+    ret = get_rvalue(exp);
     return ret;
 }
 
-- 
2.43.0


From b494f08d669d5161fd9c802ba5449f9a856ade8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 19/95] fix: scale integers added to or subtracted from
 pointers by the element size

---
 src/evaluate.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index acd8ba6..c3ac2b5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1508,12 +1508,46 @@ static tree eval_ones_comp(tree t, int depth)
   return ret;
 }
 
+/* Add to (or, if SUB is set, subtract from) a pointer a number of elements. The
+ * result is a pointer of the same type. */
+static tree offset_pointer(tree ptr, tree offset, bool sub, int depth)
+{
+    tree ret = make_live_var(tLV_TYPE(ptr));
+    ptrdiff_t bytes;
+
+    if (is_T_LIVE_VAR(offset))
+        offset = make_int_from_live_var(offset);
+
+    if (!is_T_INTEGER(offset))
+        eval_die(ptr, "Could not add non integer type to pointer\n");
+
+    bytes = mpz_get_si(tINT_VAL(offset)) *
+        (ptrdiff_t)get_pointer_step(tLV_TYPE(ptr), depth);
+
+    tLV_VAL(ret)->D_T_PTR = (char *)tLV_VAL(ptr)->D_T_PTR +
+        (sub ? -bytes : bytes);
+
+    return ret;
+}
+
+static bool is_pointer_var(tree t)
+{
+    return is_T_LIVE_VAR(t) && is_D_T_PTR(tLV_TYPE(t));
+}
+
 static tree eval_add(tree t, int depth)
 {
     tree left = __evaluate_1(tADD_LHS(t), depth + 1);
     tree right = __evaluate_1(tADD_RHS(t), depth + 1);
+    tree ret;
 
-    tree ret = tree_make(T_INTEGER);
+    if (is_pointer_var(left))
+        return offset_pointer(left, right, false, depth);
+
+    if (is_pointer_var(right))
+        return offset_pointer(right, left, false, depth);
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
     /* Resolve all identifiers. */
@@ -1535,10 +1569,23 @@ static tree eval_sub(tree t, int depth)
 {
     tree left = __evaluate_1(tSUB_LHS(t), depth + 1);
     tree right = __evaluate_1(tSUB_RHS(t), depth + 1);
+    tree ret;
 
-    tree ret = tree_make(T_INTEGER);
+    if (is_pointer_var(left) && !is_pointer_var(right))
+        return offset_pointer(left, right, true, depth);
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
+    if (is_pointer_var(left) && is_pointer_var(right)) {
+        /* The difference of two pointers is a number of elements. */
+        mpz_set_si(tINT_VAL(ret),
+                   ((char *)tLV_VAL(left)->D_T_PTR -
+                    (char *)tLV_VAL(right)->D_T_PTR) /
+                   (ptrdiff_t)get_pointer_step(tLV_TYPE(left), depth));
+        return ret;
+    }
+
     if (is_T_LIVE_VAR(left))
         left = make_int_from_live_var(left);
 
-- 
2.43.0


From 108d697d2c32158afa23197bcc927db840b8d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 20/95] fix: don't truncate the value of conditions before
 testing it

---
 src/evaluate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c3ac2b5..02ab259 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2176,7 +2176,7 @@ static tree eval_loop_for(tree t, int depth)
             if (!is_T_INTEGER(cond_result))
                 eval_die(t, "Unknown condition result");
 
-            if (!mpz_get_si(tINT_VAL(cond_result)))
+            if (!mpz_sgn(tINT_VAL(cond_result)))
                 break;
         }
 
@@ -2210,7 +2210,7 @@ static tree eval_loop_while(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("While Loop");
@@ -2232,7 +2232,7 @@ static tree eval_infix(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         return __evaluate_1(tINFIX_TRUE_STMT(t), depth + 1);
     else
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
@@ -2247,7 +2247,7 @@ static tree eval_if(tree t, int depth)
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         break_stmt = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
         break_stmt = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
-- 
2.43.0


From 6fe52ab93392152b35461cef0eaa9d8c69ab7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 21/95] fix: mark every object only once per garbage collection

---
 src/gengc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gengc.cpp b/src/gengc.cpp
index a3a70b9..a58eb87 100644
--- a/src/gengc.cpp
+++ b/src/gengc.cpp
@@ -51,7 +51,9 @@ static void outputPreamble(FILE *f)
           "{\n"
           "    tree t;\n"
           "\n"
-          "    if (!obj)\n"
+          "    /* Everything that can be reached from an object that has been\n"
+          "     * marked already, has been marked too. */\n"
+          "    if (!obj || obj->reachable)\n"
           "        return;\n"
           "\n"
           "    obj->reachable = 1;\n"
-- 
2.43.0


From 78b6aa0b6e4fece23f4614b0b97c6f3425fb76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 22/95] fix: bounds of the garbage collector's table of
 allocations

---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index a01fc73..7eacf3b 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -135,10 +135,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -173,7 +171,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * old_alloc_array_sz);
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From f42ea6b7cc06c61075480ee57be0eb0391464dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 23/95] fix: release the temporaries of loop conditions and
 steps

---
 src/evaluate.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 02ab259..e8ce31b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2158,13 +2158,24 @@ static tree eval_cast(tree t, int depth)
 static tree eval_loop_for(tree t, int depth)
 {
     tree break_stmt;
+    bool first = true;
 
     /* The scope of anything declared by the init clause is the loop. */
     push_ctx("For Loop Init");
 
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
-    do {
+    while (1) {
+
+        /* Every iteration, including the evaluation of the condition and the
+         * step, uses a context of its own. This allows temporaries to be
+         * collected once the iteration has finished. */
+        push_ctx("For Loop");
+
+        if (!first)
+            __evaluate_1(tFLOOP_AFTER(t), depth + 1);
+
+        first = false;
 
         /* An omitted condition is always true. */
         if (!is_T_EMPTY(tFLOOP_COND(t))) {
@@ -2176,20 +2187,18 @@ static tree eval_loop_for(tree t, int depth)
             if (!is_T_INTEGER(cond_result))
                 eval_die(t, "Unknown condition result");
 
-            if (!mpz_sgn(tINT_VAL(cond_result)))
+            if (!mpz_sgn(tINT_VAL(cond_result))) {
+                pop_ctx();
                 break;
+            }
         }
 
-        push_ctx("For Loop");
         break_stmt = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
         if (break_stmt)
             break;
-
-        __evaluate_1(tFLOOP_AFTER(t), depth + 1);
-
-    } while (1);
+    }
 
     pop_ctx();
 
@@ -2202,18 +2211,23 @@ static tree eval_loop_while(tree t, int depth)
 
     do {
 
-        tree cond_result = __evaluate_1(tWLOOP_COND(t),
-                                        depth + 1);
+        tree cond_result;
+
+        /* Allow the temporaries of the condition to be collected, too. */
+        push_ctx("While Loop");
+
+        cond_result = __evaluate_1(tWLOOP_COND(t), depth + 1);
 
         cond_result = convert_to_comparable_type(cond_result, depth);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_sgn(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result))) {
+            pop_ctx();
             break;
+        }
 
-        push_ctx("While Loop");
         break_stmt = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
-- 
2.43.0


From 0b4823eba43d8985ba68cf45ed0f423ec0f5744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 24/95] fix: convert the returned value before leaving the
 contexts of the function

---
 src/evaluate.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e8ce31b..f0401ce 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -442,8 +442,16 @@ static tree eval_fn_call(tree t, int depth)
             if (arg_decls)
                 arg_vals = eval_fn_args(arg_vals, depth);
 
+            /* The returned value can't be one of the variables of the function,
+             * since their storage is freed along with the contexts of the
+             * function. Therefore, allocate an object of the return type in
+             * the context of the caller, see `handle_return'. */
+            return_val = is_CTYPE(tFN_RET_TYPE(function)) ?
+                make_live_var(tFN_RET_TYPE(function)) : NULL;
+
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
+            tECTX_RETVAL(cur_ctx) = return_val;
 
             /* The function doesn't see the identifiers of its caller. */
             tECTX_CALLER_CTX(cur_ctx) = tECTX_PARENT_CTX(cur_ctx);
@@ -505,16 +513,6 @@ static tree eval_fn_call(tree t, int depth)
 
             cur_ctx = tECTX_CALLER_CTX(fn_ctx);
 
-            /* Convert the value to the return type of the function. This also
-             * ensures that it isn't one of the variables of the function,
-             * since their storage is freed along with the function's
-             * context. */
-            if (return_val && is_CTYPE(tFN_RET_TYPE(function))) {
-                tree ret_lv = make_live_var(tFN_RET_TYPE(function));
-                assign_value(t, ret_lv, return_val);
-                return ret_lv;
-            }
-
             return return_val;
         } else {
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
@@ -2288,6 +2286,7 @@ static tree eval_return(tree t, int depth)
      * will be evaluated again the next time that the function is called. */
     tree ret = tree_make(T_RETURN);
 
+    tLOCUS(ret) = tLOCUS(t);
     tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
 
     return ret;
@@ -2951,7 +2950,12 @@ static void handle_return(tree ret)
     if (!fn_ctx)
         cscript_exit(tRET_EXP(ret));
 
-    tECTX_RETVAL(fn_ctx) = tRET_EXP(ret);
+    if (tRET_EXP(ret) && tECTX_RETVAL(fn_ctx))
+        /* Convert the value to the return type of the function. */
+        assign_value(ret, tECTX_RETVAL(fn_ctx), tRET_EXP(ret));
+    else
+        tECTX_RETVAL(fn_ctx) = tRET_EXP(ret);
+
     longjmp(tECTX_JMP_BUF(fn_ctx), 1);
 }
 
-- 
2.43.0


From b84fb774aa356c1d43222adf2a6627dd72fa9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 25/95] fix: diagnose the use of expressions that don't have a
 value

---
 src/evaluate.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f0401ce..f910e96 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -352,6 +352,9 @@ static tree convert_to_comparable_type(tree t, int depth)
     tree evaluated = __evaluate_1(t, depth + 1),
         ret;
 
+    if (!evaluated)
+        eval_die(t, "Expression doesn't have a value\n");
+
     switch (TYPE(evaluated)) {
     case T_INTEGER:
         ret = evaluated;
@@ -397,6 +400,10 @@ static tree eval_fn_args(tree args, int depth)
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
         tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+
+        if (!tFNARG_EXP(fn_arg))
+            eval_die(arg, "Argument doesn't have a value\n");
+
         tree_chain(fn_arg, ret);
     }
 
@@ -1348,6 +1355,9 @@ static tree eval_assign(tree t, int depth)
     if (!is_T_LIVE_VAR(left))
         eval_die(t, "Not a valid lvalue.\n");
 
+    if (!right)
+        eval_die(t, "Assigned expression doesn't have a value\n");
+
     assign_value(t, left, right);
 
     /* Return the value that was assigned (converted to the type of the
@@ -1476,10 +1486,7 @@ static tree eval_dec(tree t, int depth)
 static tree eval_negate(tree t, int depth)
 {
     tree ret = tree_make(T_INTEGER);
-    tree intval;
-    tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
-
-    intval = convert_to_comparable_type(exp, depth);
+    tree intval = convert_to_comparable_type(tNEGATE_EXP(t), depth);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
         mpz_init_set_ui(tINT_VAL(ret), 1);
@@ -2177,10 +2184,8 @@ static tree eval_loop_for(tree t, int depth)
 
         /* An omitted condition is always true. */
         if (!is_T_EMPTY(tFLOOP_COND(t))) {
-            tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                            depth + 1);
-
-            cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            tree cond_result = convert_to_comparable_type(tFLOOP_COND(t),
+                                                          depth);
 
             if (!is_T_INTEGER(cond_result))
                 eval_die(t, "Unknown condition result");
@@ -2214,9 +2219,7 @@ static tree eval_loop_while(tree t, int depth)
         /* Allow the temporaries of the condition to be collected, too. */
         push_ctx("While Loop");
 
-        cond_result = __evaluate_1(tWLOOP_COND(t), depth + 1);
-
-        cond_result = convert_to_comparable_type(cond_result, depth);
+        cond_result = convert_to_comparable_type(tWLOOP_COND(t), depth);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
@@ -2548,7 +2551,8 @@ static tree eval_enumerator(tree t, int depth)
 static tree eval_comp_access(tree t, int depth)
 {
     tree left = __evaluate_1(tCOMP_ACCESS_OBJ(t), depth + 1),
-        id = tCOMP_ACCESS_MEMBER(t);
+        id = tCOMP_ACCESS_MEMBER(t),
+        member;
 
     if (!is_T_LIVE_COMPOUND(left))
         eval_die(t, "Unknown compound type in compound access\n");
@@ -2556,7 +2560,12 @@ static tree eval_comp_access(tree t, int depth)
     if (!is_T_IDENTIFIER(id))
         eval_die(t, "Unknown accessor in compound access\n");
 
-    return __resolve_id(id, tLV_COMP_MEMBERS(left));
+    member = __resolve_id(id, tLV_COMP_MEMBERS(left));
+
+    if (!member)
+        eval_die(t, "Could not find member %s\n", tID_STR(id));
+
+    return member;
 }
 
 static tree eval_repl(tree t, int depth)
-- 
2.43.0


From 800ce632c8b4be3fe5d8e248f1085d40fda2b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 26/95] fix: use the value returned by main as the exit status

---
 src/cscript.c  | 8 ++++++--
 src/evaluate.c | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..09040cf 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -107,7 +107,8 @@ static void create_arguments(int argc, char *argv[])
 
 static void add_call_to_main(tree head, int num_args)
 {
-    tree main_fncall = tree_make(T_FN_CALL);
+    tree main_fncall = tree_make(T_FN_CALL),
+        main_return = tree_make(T_RETURN);
 
     tFNCALL_ID(main_fncall) = get_identifier(strdup("main"));
     tFNCALL_ARGS(main_fncall) = NULL;
@@ -121,7 +122,10 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    /* The value that main() returns is the exit status. */
+    tRET_EXP(main_return) = main_fncall;
+
+    tree_chain(main_return, head);
 }
 
 static void __evaluate_cscript(tree head, const char *fname, int argc,
diff --git a/src/evaluate.c b/src/evaluate.c
index f910e96..d8155ba 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3003,7 +3003,14 @@ static tree __evaluate(tree head, int depth)
 int get_c_main_return_value(tree t)
 {
     int ret;
-    tree retnum = convert_to_comparable_type(t, 0);
+    tree retnum;
+
+    /* Neither a top-level `return;' nor a main() that doesn't return a value
+     * is an error. */
+    if (!t)
+        return 0;
+
+    retnum = convert_to_comparable_type(t, 0);
 
     if (!is_T_INTEGER(retnum))
         return 1;
-- 
2.43.0


From d925bc120deab5e7bbad1d2a08dcda5345be61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 27/95] fix: alignment of nested compounds and padding at the
 end of compounds

---
 src/c.lang     |  1 +
 src/evaluate.c | 33 +++++++++++++++++----------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 283b9ed..1ca5f24 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -177,6 +177,7 @@
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
          ("ID" "DECLS"
                ("SZ" sz)
+               ("ALIGN" sz)
                ("EXPANDED" flag)
                ("TYPE"  comp_decl_type)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index d8155ba..eb1e383 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2359,27 +2359,20 @@ static size_t get_alignment_for_type(tree t, int depth)
              * array's base type. */
             tree array_type = tDTPTR_EXP(tLV_TYPE(t));
 
-            alignment = get_size_of_type(array_type, depth);
+            alignment = get_alignment_for_type(array_type, depth);
         }
         else
             alignment = get_size_of_type(tLV_TYPE(t), depth);
         break;
     }
     case T_LIVE_COMPOUND:
-    {
-        tree first_member = NULL;
-
-        for_each_tree(first_member, tLV_COMP_MEMBERS(t))
-            break;
-
-        if (!first_member)
-            eval_die(t, "First member not found in live compound");
-
-        first_member = tEMAP_RIGHT(first_member);
-
-        alignment = get_alignment_for_type(first_member, depth);
-    }
-    break;
+        alignment = get_alignment_for_type(tLV_COMP_DECL(t), depth);
+        break;
+    case T_DECL_COMPOUND:
+        /* The alignment requirement of a compound is the strictest of those of
+         * its members. */
+        alignment = tCOMP_DECL_ALIGN(t);
+        break;
     case D_T_CHAR...D_T_PTR:
         alignment = get_size_of_type(t, depth);
         break;
@@ -2394,7 +2387,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
-    size_t max_member_sz = 0;
+    size_t max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -2467,6 +2460,9 @@ static tree eval_decl_compound(tree t, int depth)
         member_size = get_size_of_type(live_var, depth);
         member_alignment = get_alignment_for_type(live_var, depth);
 
+        if (member_alignment > max_alignment)
+            max_alignment = member_alignment;
+
         if (offset == 0)
             padding_size = 0;
         else
@@ -2490,6 +2486,11 @@ static tree eval_decl_compound(tree t, int depth)
     else
         tCOMP_DECL_SZ(t) = max_member_sz;
 
+    /* Pad the end of the compound so that all elements of an array of it are
+     * aligned. */
+    tCOMP_DECL_SZ(t) += -tCOMP_DECL_SZ(t) & (max_alignment - 1);
+    tCOMP_DECL_ALIGN(t) = max_alignment;
+
     tCOMP_DECL_EXPANDED(t) = 1;
 
     return t;
-- 
2.43.0


From 758c1934f5f7f23871a2b58e5d72d7e270426b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 28/95] fix: scope of compound tags defined within compounds

---
 src/evaluate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index eb1e383..00b03be 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2431,8 +2431,14 @@ static tree eval_decl_compound(tree t, int depth)
      * size of the compound. */
     for_each_tree(i, tCOMP_DECL_DECLS(t)) {
         tree id, live_var, decl = i;
+        tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
         size_t member_size, member_alignment, padding_size;
 
+        /* A compound has no scope of its own. The tags of any compounds that
+         * are defined by the members belong to the enclosing scope. */
+        if (is_T_DECL_COMPOUND(type) && tCOMP_DECL_DECLS(type))
+            __evaluate_1(type, depth + 1);
+
         /* To calculate the size of each element of the compound, we
          * temporarily push the evaluation ctx, evaluate each decl
          * within the new evaluation ctx, resolve the identifier back
-- 
2.43.0


From 907d0e23c5602a1ec1488c6fd0036a30fd2d3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 29/95] fix: compound members of enumerated types

---
 src/c.lang     |  2 +-
 src/evaluate.c | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 1ca5f24..00cf8f2 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -216,7 +216,7 @@
 (deftype T_REPL "Switch to REPL")
 
 (deftype T_ENUMERATOR "Enumerator" "tENUM"
-         ("NAME" "ENUMS"))
+         ("NAME" "ENUMS" "TYPE"))
 
 (deftype T_VARIADIC "Variadic Function Argument")
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 00b03be..9d00ec1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -670,6 +670,12 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
         decl_type = __evaluate_1(decl_type, depth + 1);
 
+    /* The enumerators have already been mapped when the compound was declared,
+     * see `eval_decl_compound'. */
+    if (is_T_ENUMERATOR(decl_type))
+        decl_type = tENUM_ENUMS(decl_type) ? tENUM_TYPE(decl_type) :
+            __evaluate_1(decl_type, depth + 1);
+
     void *base = tLV_COMP_BASE(live_struct);
 
     if (is_T_FN(decl_element)) {
@@ -2387,6 +2393,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
+    tree last_enum = NULL;
     size_t max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
@@ -2434,11 +2441,17 @@ static tree eval_decl_compound(tree t, int depth)
         tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
         size_t member_size, member_alignment, padding_size;
 
-        /* A compound has no scope of its own. The tags of any compounds that
-         * are defined by the members belong to the enclosing scope. */
+        /* A compound has no scope of its own. The tags of any compounds and
+         * the enumerators that are defined by the members belong to the
+         * enclosing scope. */
         if (is_T_DECL_COMPOUND(type) && tCOMP_DECL_DECLS(type))
             __evaluate_1(type, depth + 1);
 
+        if (is_T_ENUMERATOR(type) && tENUM_ENUMS(type) && type != last_enum)
+            __evaluate_1(type, depth + 1);
+
+        last_enum = type;
+
         /* To calculate the size of each element of the compound, we
          * temporarily push the evaluation ctx, evaluate each decl
          * within the new evaluation ctx, resolve the identifier back
@@ -2552,6 +2565,8 @@ static tree eval_enumerator(tree t, int depth)
         enum_val++;
     }
 
+    tENUM_TYPE(t) = enum_base_type;
+
     return enum_base_type;
 }
 
-- 
2.43.0


From 9f4891bffb9bad37ab1f72543e2d8041820c557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 30/95] fix: allow a function to be defined after it has been
 declared

---
 src/evaluate.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9d00ec1..c6fbe40 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -808,13 +808,20 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
             return handle_declarator(id, fn, depth);
         }
 
-        /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+        previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
 
-            if (previous_decl)
+        if (previous_decl) {
+            /* Allow a declaration (not a definition!) of a funcion to be repeated. */
+            if (!tFN_STMTS(fn))
                 return previous_decl;
-    }
+
+            /* This is the definition of a function that has been declared
+             * before. */
+            if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+                tree_copy(previous_decl, fn);
+                return decl;
+            }
+        }
 
         map_identifier(tFN_DECL(fn), fn);
         return decl;
-- 
2.43.0


From 08a5f6c22cfc0b840cb56bf853134925bacb9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 31/95] fix: definition of functions that return pointers

---
 src/parser.m4 | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 4849ebf..81fa364 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -112,6 +112,19 @@ CSCRIPT_ONLY
         TARGET()_current_file = fname;
     }
 
+    /* Set the body of the function that `declarator' declares. The function is
+     * enclosed by a pointer if it returns one. */
+    static void set_fn_stmts(tree declarator, tree stmts)
+    {
+        while (is_T_POINTER(declarator))
+            declarator = tPTR_EXP(declarator);
+
+        if (!is_T_FN(declarator))
+            TARGET()error("syntax error, body of something that is not a function");
+
+        tFN_STMTS(declarator) = stmts;
+    }
+
     /* The chain of a compound statement can not be a member of another chain,
      * therefore wrap it up if it is itself an item of a list of statements. */
     static tree make_block(tree stmt, YYLTYPE locus)
@@ -1628,7 +1641,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $4;
+        set_fn_stmts($2, $4);
         set_locus(decl, @2);
         $$ = decl;
     }
@@ -1637,7 +1650,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $3;
+        set_fn_stmts($2, $3);
         set_locus(decl, @2);
         $$ = decl;
     }
-- 
2.43.0


From 3d6ac5e2bc785174d4d0edd9b0cf50f77a056db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 32/95] fix: octal and upper case hexadecimal integer literals

---
 src/lex.m4 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 1294ef9..8c91cbb 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,9 +195,10 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
+0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
 [0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
 [0-9]+\.[0-9]+                mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
-0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
+0[xX]{X}+                       mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
-- 
2.43.0


From 98ac38fa83fe7eaeb8d0a7948f57b7a8ade55bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 33/95] fix: octal escapes in strings have at most three digits

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 8c91cbb..3fcb02a 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -204,7 +204,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
-<str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
+<str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
-- 
2.43.0


From 6a05e8d58940b82091a0f4859e2c05ff10400063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 34/95] fix: reject invalid characters and literals without
 ending the session

---
 src/lex.m4 | 61 +++++++++++++++++++++++++++++++++++++++---------------
 src/repl.c |  4 ++++
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 3fcb02a..20207f8 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -83,39 +83,54 @@ static void sl_append_char(char c)
     free(s);
 }
 
-static void  __attribute__((noreturn))lex_err(char *fmt, ...)
+/* The token that is returned for invalid input, it isn't part of any rule of the
+ * grammar. Returning it makes the parser reject the input. */
+`#'define LEX_ERROR 1
+
+void TARGET()error(const char *str);
+
+static int lex_err(char *fmt, ...)
 {
     va_list args;
+    char msg[256];
+
     va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
+    vsnprintf(msg, sizeof(msg), fmt, args);
     va_end(args);
 
-    exit(EXIT_FAILURE);
+    TARGET()error(msg);
+
+    return LEX_ERROR;
 }
 
-static char lex_char(char *str)
+static int lex_char(char *str, mpz_t val)
 {
     size_t char_str_len = strlen(str);
 
     if (!(char_str_len == 3 || char_str_len == 4))
-       lex_err("character string %s does not contain three or four chars.\n",
-               str);
+       return lex_err("character string %s does not contain three or four chars",
+                      str);
 
     if (str[0] != '\'')
-        lex_err("first char in char string %s is not a `'`.\n", str);
+        return lex_err("first char in char string %s is not a `'`", str);
 
-    if (str[1] != ''\\')
-        return str[1];
+    if (str[1] != ''\\') {
+        mpz_init_set_si(val, str[1]);
+        return INTEGER;
+    }
 
     switch (str[2]) {
     case 'n':
-        return '\n';
+        mpz_init_set_si(val, '\n');
+        return INTEGER;
     case '\\':
-        return '\\';
+        mpz_init_set_si(val, '\\');
+        return INTEGER;
     case 'r':
-        return '\r';
+        mpz_init_set_si(val, '\r');
+        return INTEGER;
     default:
-        lex_err("Unknown char escapse sequence `%c'\n", str[2]);
+        return lex_err("Unknown char escapse sequence `%c'", str[2]);
     }
 }
 
@@ -199,7 +214,7 @@ ALL_TARGETS
 [0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
 [0-9]+\.[0-9]+                mpf_init_set_d(LEXLVAL.ffloat, strtod(LEXTEXT, NULL)); return FLOAT_CST;
 0[xX]{X}+                       mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
-L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
+L?'(\\.|[^\\'\n])+'	        return lex_char(LEXTEXT, LEXLVAL.integer);
 \"                              { BEGIN str_lit; sl_begin(); }
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
@@ -207,10 +222,10 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
-<str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
-<str_lit>\n                     { lex_err("newline in string\n"); }
+<str_lit>\\.                    { BEGIN 0; return lex_err("bogus escape '%s' in string", LEXTEXT); }
+<str_lit>\n                     { BEGIN 0; return lex_err("newline in string"); }
 
-<INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
+<INITIAL,compound_start_cond>[ \t\r\f\v]                        /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
 
 "..."                           return ELLIPSIS;
@@ -257,4 +272,16 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
+<str_lit><<EOF>>                { BEGIN 0; return lex_err("unterminated string"); }
+<<EOF>>                         { BEGIN 0; yyterminate(); }
+<*>.                            { BEGIN 0; return lex_err("invalid character `%s'", LEXTEXT); }
 %%
+
+REPL_ONLY
+    /* Forget about anything a previous line, that was rejected by the parser,
+     * has left behind. */
+    void TARGET()_lex_reset(void)
+    {
+        BEGIN 0;
+    }
+ALL_TARGETS
diff --git a/src/repl.c b/src/repl.c
index c64d807..aa2ef9e 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -37,6 +37,8 @@ extern void add_history (const char *);
 #  endif /* HAVE_READLINE_HISTORY_H */
 #endif /* HAVE_READLINE_HISTORY */
 
+extern void repl_lex_reset(void);
+
 tree repl_parse_head;
 GC_STATIC_TREE(repl_parse_head);
 
@@ -374,6 +376,8 @@ static tree repl_do_parse(char *line)
     int parse_result;
     tree i, ret = NULL;
 
+    repl_lex_reset();
+
     YY_BUFFER_STATE buffer = repl_scan_string(line);
     inhibit_gc();
     parse_result = replparse();
-- 
2.43.0


From 359107473fdee47c92901ff73b8342972d93a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 35/95] fix: line markers with arbitrary characters in file
 names

---
 src/lex.m4 | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 20207f8..31dde5f 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -46,14 +46,15 @@ CSCRIPT_ONLY
 
         /* Now the file name.
          *
-         * Note that the filename is sourrounded by quotes. Remove that here.*/
-        s = strtok(NULL, " ");
+         * Note that the filename is sourrounded by quotes and could contain
+         * spaces. Remove the quotes here.*/
+        s = strtok(NULL, "");
 
-        if (!s)
+        if (!s || !(s = strchr(s, '"')) || strrchr(s, '"') == s)
             return;
 
         s += 1;
-        s[strlen(s) - 1] = 0;
+        *strrchr(s, '"') = 0;
 
         TARGET()_parser_set_file(s);
     }
@@ -202,7 +203,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"[^\n]*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From ad0c7134d7ab62b3c8e1734167a4fd274005766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 36/95] fix: report the location of the code that caused an
 error

---
 src/evaluate.c | 28 +++++++++++++++++++++++++---
 src/parser.m4  | 15 +++++++++++++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c6fbe40..68afaa4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -45,6 +45,9 @@ const tree get_include_chain(void)
 
 static const char *current_filename;
 
+/* The location of the code that is currently being evaluated. */
+static struct tree_locus current_locus;
+
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
 
@@ -103,21 +106,34 @@ static void ctx_backtrace(void)
     tree ctx = cur_ctx;
 
     while (ctx) {
-        puts(tID_STR(tECTX_NAME(ctx)));
+        fprintf(stderr, "%s\n", tID_STR(tECTX_NAME(ctx)));
         ctx = tECTX_IS_FN_CALL(ctx) ? tECTX_CALLER_CTX(ctx) :
             tECTX_PARENT_CTX(ctx);
     }
 }
 
+/* Values (and functions) know where they have been declared, not where they are
+ * used. */
+static bool is_locus_of_use(tree t)
+{
+    return t && t->locus.line_no && !is_LIVE(t) && !is_T_FN(t);
+}
+
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
-    fprintf(stderr, "%s:%zu:%zu: error: ", current_filename, t->locus.line_no,
-            t->locus.column_no);
+    struct tree_locus locus = is_locus_of_use(t) ? t->locus : current_locus;
+
+    fprintf(stderr, "%s:%zu:%zu: error: ",
+            locus.file ? tID_STR(locus.file) : current_filename,
+            locus.line_no, locus.column_no);
     va_list args;
     va_start(args, format);
     vfprintf(stderr, format, args);
     va_end(args);
 
+    if (format[strlen(format) - 1] != '\n')
+        fputc('\n', stderr);
+
     ctx_backtrace();
 
     exit(EXIT_FAILURE);
@@ -2896,10 +2912,14 @@ static tree eval_self(tree t, int depth)
 static tree __evaluate_1(tree t, int depth)
 {
     tree result = NULL;
+    struct tree_locus saved_locus = current_locus;
 
     if (!t)
         return result;
 
+    if (is_locus_of_use(t))
+        current_locus = t->locus;
+
     switch (TYPE(t))
     {
     case T_IDENTIFIER: result = eval_identifier(t, depth + 1); break;
@@ -2971,6 +2991,8 @@ static tree __evaluate_1(tree t, int depth)
     default:           result = NULL;                          break;
     }
 
+    current_locus = saved_locus;
+
     return result;
 }
 
diff --git a/src/parser.m4 b/src/parser.m4
index 81fa364..49242cd 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -79,6 +79,12 @@ static tree make_unary_minus(tree exp, YYLTYPE locus)
     }
 }
 
+static void set_binmod_locus(tree assign, YYLTYPE locus)
+{
+    set_locus(assign, locus);
+    set_locus(tASSIGN_RHS(assign), locus);
+}
+
 static void find_ids_to_map_to_typenames(tree decl)
 {
     tree i;
@@ -520,6 +526,7 @@ relational_expression
     tree lt = tree_make(T_LT);
     tLT_LHS(lt) = $1;
     tLT_RHS(lt) = $3;
+    set_locus(lt, @2);
     $$ = lt;
 }
 | relational_expression '>' shift_expression
@@ -634,6 +641,7 @@ conditional_expression
     tINFIX_COND(infix) = $1;
     tINFIX_TRUE_STMT(infix) = $3;
     tINFIX_FALSE_STMT(infix) = $5;
+    set_locus(infix, @2);
     $$ = infix;
 }
 
@@ -654,26 +662,32 @@ assignment_expression
 | unary_expression ADD_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_ADD, tADD, $1, $3);
+    set_binmod_locus($$, @2);
 }
 | unary_expression SUB_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_SUB, tSUB, $1, $3);
+    set_binmod_locus($$, @2);
 }
 | unary_expression  DIV_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_DIV, tDIV, $1, $3);
+    set_binmod_locus($$, @2);
 }
 | unary_expression LSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_LSHIFT, tLSHIFT, $1, $3);
+    set_binmod_locus($$, @2);
 }
 | unary_expression RSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_RSHIFT, tRSHIFT, $1, $3);
+    set_binmod_locus($$, @2);
 }
 | unary_expression XOR_ASSIGN assignment_expression
 {
 $$ = tree_make_binmod(T_X_OR, tX_OR, $1, $3);
+    set_binmod_locus($$, @2);
 }
 ;
 
@@ -682,6 +696,7 @@ expression
 {
     tree expression_list = tree_make(T_EXPR_LIST);
     tEXPR_LIST_CHAIN(expression_list) = tree_chain_head($1);
+    set_locus(expression_list, @1);
     $$ = expression_list;
 }
 | expression ',' assignment_expression
-- 
2.43.0


From c68bd8547f7c4c11f82c354f5f45d3bb2773a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 37/95] fix: callbacks return their value and live as long as
 their function

---
 src/c.lang          |  5 ++--
 src/evaluate.c      | 23 ++++++++++++++++
 src/evaluate.h      |  1 +
 src/function-call.c | 65 ++++++++++++++++++++++++++++++++++++++-------
 4 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 00cf8f2..600fd67 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -182,7 +182,7 @@
                ("TYPE"  comp_decl_type)))
 
 (deftype T_FN "Function" "tFN"
-         ("DECL" "ARGS" "RET_TYPE" "STMTS"))
+         ("DECL" "ARGS" "RET_TYPE" "STMTS" "CLOSURE"))
 
 (deftype T_BUILTIN "Builtin function handler" "tBUILTIN"
          (("HANDLER" ptr)))
@@ -194,7 +194,8 @@
          ("ARG_TYPES" "RET_TYPE" "FN"
           ("CIF" ffi_cif)
           ("TYPES" ffi_types)
-          ("CLOSURE" ffi_closure)))
+          ("CLOSURE" ffi_closure)
+          ("ENTRY" ptr)))
 
 (deftype T_FN_ARG "Function Argument" "tFNARG"
          ("EXP"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 68afaa4..bc404bf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -406,6 +406,29 @@ static tree convert_to_comparable_type(tree t, int depth)
 #undef DEFCTYPE
 
 
+/* Obtain the type of a parameter of a function, arrays and functions are passed
+ * as pointers. */
+tree resolve_param_type(tree param)
+{
+    tree declarator = tDECL_DECLS(param),
+        type = resolve_decl_specs_to_type(tDECL_SPECS(param));
+
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type)
+        || is_T_ENUMERATOR(type))
+        type = __evaluate_1(type, 0);
+
+    resolve_ptr_type(&declarator, &type);
+
+    if ((declarator && !is_T_IDENTIFIER(declarator)) ||
+        is_T_ARRAY_TYPE(type) || is_T_FN(type)) {
+        tree ptr_type = tree_make(D_T_PTR);
+        tDTPTR_EXP(ptr_type) = type;
+        return ptr_type;
+    }
+
+    return type;
+}
+
 static tree eval_fn_args(tree args, int depth)
 {
     tree arg, ret = tree_make(CHAIN_HEAD);
diff --git a/src/evaluate.h b/src/evaluate.h
index 2be051a..6674c0b 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,7 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+tree resolve_param_type(tree param);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..bc82321 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -115,12 +115,54 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
     else
         ffi_prep_cif(&cif, FFI_DEFAULT_ABI, n, ret_type, types);
 
+    /* The values of the arguments are held by the current context, and the
+     * called function could run for as long as it likes if it calls back. */
+    enable_gc();
+
     ffi_call(&cif, function_address, ret_lv ? (void *)tLV_VAL(ret_lv) : NULL, vals);
 
     free(types);
     free(vals);
+}
 
-    enable_gc();
+/* Store the value that a closure returns. libffi expects integers that are
+ * narrower than a register to be widened. */
+static void set_closure_return_value(tree ret_type, void *ret, tree val)
+{
+    tree ret_lv;
+
+    if (is_D_T_VOID(ret_type))
+        return;
+
+    /* The function didn't return a value, that is fine as long as the caller
+     * doesn't use it. */
+    if (!is_T_LIVE_VAR(val)) {
+        memset(ret, 0, get_ffi_type(TYPE(ret_type))->size);
+        return;
+    }
+
+    ret_lv = val;
+
+    switch (TYPE(ret_type)) {
+#define SETINT(TNAME, FFI_TYPE)                                         \
+    case TNAME:                                                         \
+        *(FFI_TYPE *)ret = tLV_VAL(ret_lv)->TNAME;                      \
+        break;
+    SETINT(D_T_CHAR, ffi_sarg);
+    SETINT(D_T_SHORT, ffi_sarg);
+    SETINT(D_T_INT, ffi_sarg);
+    SETINT(D_T_LONG, ffi_sarg);
+    SETINT(D_T_LONGLONG, ffi_sarg);
+    SETINT(D_T_UCHAR, ffi_arg);
+    SETINT(D_T_USHORT, ffi_arg);
+    SETINT(D_T_UINT, ffi_arg);
+    SETINT(D_T_ULONG, ffi_arg);
+    SETINT(D_T_ULONGLONG, ffi_arg);
+#undef SETINT
+    default:
+        memcpy(ret, tLV_VAL(ret_lv), get_ffi_type(TYPE(ret_type))->size);
+        break;
+    }
 }
 
 static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
@@ -154,7 +196,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    set_closure_return_value(tCLOSURE_RET_TYPE(closure), ret,
+                             evaluate_expr(fn_call));
 }
 
 void *get_entry_point_for_fn(tree fndef)
@@ -162,6 +205,12 @@ void *get_entry_point_for_fn(tree fndef)
     void *ret;
     tree arg, args = tFN_ARGS(fndef),
         ret_type = tFN_RET_TYPE(fndef);
+
+    /* A function has a single entry point, which lives as long as the function
+     * does. */
+    if (tFN_CLOSURE(fndef))
+        return tCLOSURE_ENTRY(tFN_CLOSURE(fndef));
+
     tree arg_chain = tree_make(CHAIN_HEAD),
         closure = tree_make(T_CLOSURE);
     ffi_type *ffi_ret_type = &ffi_type_void;
@@ -172,18 +221,13 @@ void *get_entry_point_for_fn(tree fndef)
 
     for_each_tree(arg, args) {
         tree arg_type;
-        tree declarator;
 
         if (!is_T_DECL(arg))
             eval_die(arg, "Unknown type arg chain, expecting decl");
 
-        arg_type = resolve_decl_specs_to_type(tDECL_SPECS(arg));
-        declarator = tDECL_DECLS(arg);
-
-        if (is_T_POINTER(tDECL_DECLS(arg)))
-            resolve_ptr_type(&declarator, &arg_type);
+        arg_type = resolve_param_type(arg);
 
-        if (!is_T_IDENTIFIER(declarator))
+        if (!is_CTYPE(arg_type))
             eval_die(arg, "Unknown declarator type in closure allocation");
 
         tCLOSURE_TYPES(closure)[n++] = get_ffi_type(TYPE(arg_type));
@@ -211,5 +255,8 @@ void *get_entry_point_for_fn(tree fndef)
                          (void *)closure,
                          ret);
 
+    tCLOSURE_ENTRY(closure) = ret;
+    tFN_CLOSURE(fndef) = closure;
+
     return ret;
 }
-- 
2.43.0


From bf463cd90d066fb8ac77d2ebfe9ad9e817a46c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 38/95] fix: convert arguments of external functions to their
 parameter types

---
 src/evaluate.c      | 69 ++++++++++++++++++++++++++++++++++++++++++---
 src/function-call.c | 10 +++++--
 2 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index bc404bf..a037fed 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -429,6 +429,67 @@ tree resolve_param_type(tree param)
     return type;
 }
 
+/* Convert an argument to the type of its parameter, as if by assignment. */
+static tree convert_arg(tree arg, tree param, tree val)
+{
+    tree type = resolve_param_type(param), ret;
+
+    switch (TYPE(type)) {
+    case D_T_CHAR ... D_T_LONGDOUBLE:
+        break;
+    case D_T_PTR:
+        if (is_T_INTEGER(val))
+            break;
+        return val;
+    default:
+        return val;
+    }
+
+    ret = make_live_var(type);
+    assign_value(arg, ret, val);
+
+    return ret;
+}
+
+/* Evaluate the arguments of a call to an external function that has been
+ * declared with the given parameters. */
+static tree eval_ext_fn_args(tree call, tree params, int depth)
+{
+    tree args = tFNCALL_ARGS(call), arg, param,
+        ret = tree_make(CHAIN_HEAD);
+
+    if (params) {
+        param = list_entry(params->chain.next, typeof(*param), chain);
+    } else {
+        param = NULL;
+    }
+
+    if (args)
+        for_each_tree(arg, args) {
+            tree fn_arg = tree_make(T_FN_ARG),
+                val = __evaluate_1(arg, depth + 1);
+
+            if (!val)
+                eval_die(arg, "Argument doesn't have a value\n");
+
+            if (params && param == params)
+                eval_die(call, "Invalid number of parameters to function\n");
+
+            if (param && !is_T_VARIADIC(param)) {
+                val = convert_arg(arg, param, val);
+                param = list_entry(param->chain.next, typeof(*param), chain);
+            }
+
+            tFNARG_EXP(fn_arg) = val;
+            tree_chain(fn_arg, ret);
+        }
+
+    if (params && param != params && !is_T_VARIADIC(param))
+        eval_die(call, "Invalid number of parameters to function\n");
+
+    return ret;
+}
+
 static tree eval_fn_args(tree args, int depth)
 {
     tree arg, ret = tree_make(CHAIN_HEAD);
@@ -561,7 +622,7 @@ static tree eval_fn_call(tree t, int depth)
 
             return return_val;
         } else {
-            tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
+            tree fn_arg_chain = NULL;
             char *function_name = tID_STR(tFN_DECL(function));
             tree i;
             void *function_address = dlsym(RTLD_DEFAULT, function_name);
@@ -584,7 +645,7 @@ static tree eval_fn_call(tree t, int depth)
 
             /* Evaluate all arguments before passing into the marshalling
              * function. */
-            fn_arg_chain = eval_fn_args(args, depth);
+            fn_arg_chain = eval_ext_fn_args(t, tFN_ARGS(function), depth);
 
             if (!is_D_T_VOID(tFN_RET_TYPE(function)))
                 ret_lv = make_live_var(tFN_RET_TYPE(function));
@@ -598,7 +659,7 @@ static tree eval_fn_call(tree t, int depth)
 
     if (is_T_LIVE_VAR(function)) {
         int variadic_pos = 0;
-        tree fn_arg_chain, args = tFNCALL_ARGS(t),
+        tree fn_arg_chain,
             live_var_type = tLV_TYPE(function),
             ret_lv = NULL,
             function_type, i;
@@ -626,7 +687,7 @@ static tree eval_fn_call(tree t, int depth)
 
         /* Evaluate all arguments before passing into the marshalling
          * function. */
-        fn_arg_chain = eval_fn_args(args, depth);
+        fn_arg_chain = eval_ext_fn_args(t, tFN_ARGS(function_type), depth);
 
         do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
                     is_variadic ? &variadic_pos : NULL);
diff --git a/src/function-call.c b/src/function-call.c
index bc82321..98e9bce 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -89,9 +89,13 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
                 break;
             case T_INTEGER:
                 {
-                    int *buf = alloca(sizeof(int));
-                    *buf = mpz_get_si(tINT_VAL(arg));
-                    push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
+                    /* The type of an integer value isn't known, pass all 64
+                     * bits since that works for both int and long. */
+                    long *buf = alloca(sizeof(long));
+                    *buf = mpz_get_ui(tINT_VAL(arg));
+                    if (mpz_sgn(tINT_VAL(arg)) < 0)
+                        *buf = -*buf;
+                    push_arg(types, vals, &n, &ffi_type_slong, buf, should_promote);
                     break;
                 }
             case T_FLOAT:
-- 
2.43.0


From a48505c0e11680801576cae250effaacfa9c3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 39/95] fix: completion of compound members

---
 src/repl.c | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index aa2ef9e..53508b6 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -2,6 +2,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <pwd.h>
 
 #include "config.h"
@@ -59,7 +60,7 @@ static int is_compound_access(const char *text)
         if (text[i] == '.')
             return 1;
 
-        if (strstr(&text[i], "->"))
+        if (strncmp(&text[i], "->", 2) == 0)
             return 1;
     }
 
@@ -93,7 +94,7 @@ static int split_compound_access_text(const char *text,
             break;
         }
 
-        if (strstr(&text[i], "->")) {
+        if (strncmp(&text[i], "->", 2) == 0) {
             comp_access->obj_expr = strdup(text);
             comp_access->obj_expr[i] = '\0';
 
@@ -101,6 +102,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
@@ -110,6 +112,8 @@ static int split_compound_access_text(const char *text,
     return 1;
 }
 
+static tree repl_do_parse(char *line);
+
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
     char *comp_obj_expr = strdup(comp_access.obj_expr);
@@ -123,16 +127,7 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
      * expression. */
     comp_obj_expr = concat_strings(comp_obj_expr, ";");
 
-    YY_BUFFER_STATE lex_buffer = repl_scan_string(comp_obj_expr);
-    inhibit_gc();
-    int parse_result = replparse();
-    enable_gc();
-    repl_delete_buffer(lex_buffer);
-
-    if (parse_result)
-        return NULL;
-
-    return evaluate_expr(repl_parse_head);
+    return evaluate_expr(repl_do_parse(comp_obj_expr));
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
@@ -252,9 +247,8 @@ static char **recieve_matches(int fd)
     size_t n;
     int i;
 
-    read(fd, &n, sizeof(n));
-
-    if (!n)
+    /* Nothing is sent if the expression couldn't be evaluated. */
+    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
@@ -303,6 +297,10 @@ static char **bic_completion(const char *text, int start, int end)
             close(pfds[0]);
             char **local_matches = NULL;
 
+            /* The text being completed needn't be a valid expression, don't
+             * clutter the prompt with errors. */
+            freopen("/dev/null", "w", stderr);
+
             live_compound = get_compound_completion_object(comp_access);
 
             if (is_T_LIVE_COMPOUND(live_compound))
@@ -313,7 +311,7 @@ static char **bic_completion(const char *text, int start, int end)
 
             close(pfds[1]);
 
-            exit(0);
+            _exit(0);
         } else {
             close(pfds[1]);
 
@@ -323,7 +321,8 @@ static char **bic_completion(const char *text, int start, int end)
             free(comp_access.access_operator);
             free(comp_access.member_prefix);
 
-            close(pfds[1]);
+            close(pfds[0]);
+            waitpid(ret, NULL, 0);
         }
     }
     else
-- 
2.43.0


From 4aba9c662de412f644080422ad6eb4b76fa3c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 40/95] hook: GC interval from the environment under BIC_VERIF

---
 src/gc.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 7eacf3b..edb4f45 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -152,6 +152,29 @@ static void collect(void)
     sweep();
 }
 
+#ifdef BIC_VERIF
+#include <stdlib.h>
+/* Verification hook: the number of allocations between two collections can be
+ * set through the environment. It applies once start-up has finished. */
+static int collect_interval(void)
+{
+    static int interval = -1, startup_allocs = 100;
+
+    if (startup_allocs-- > 0)
+        return COLLECT_TREE_ALLOC;
+
+    startup_allocs = 0;
+
+    if (interval == -1) {
+        const char *env = getenv("BIC_VERIF_GC");
+        interval = env ? atoi(env) : COLLECT_TREE_ALLOC;
+    }
+
+    return interval;
+}
+#define COLLECT_TREE_ALLOC collect_interval()
+#endif
+
 static void maybe_collect()
 {
     static int collect_counter = 0;
-- 
2.43.0


From e98c379a46a83a1ed61feb0ed4cf3f8805087ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 41/95] fix: objects are initially zero

---
 src/evaluate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a037fed..f61ad3d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -316,7 +316,8 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+    /* Objects with static storage are initially zero. */
+    tLV_VAL(live_var) = calloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -841,7 +842,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = calloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -851,7 +852,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = calloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From 07aecbc3c3ddd6001ec4bfd55a49b5cac70ab7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 42/95] fix: negative array subscripts

---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f61ad3d..edc4b5d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2710,7 +2710,7 @@ static tree eval_array_access(tree t, int depth)
     tree array = __evaluate_1(tARR_ACCESS_OBJ(t), depth + 1),
         index = __evaluate_1(tARR_ACCESS_IDX(t), depth + 1),
         new_ptr, deref;
-    size_t idx, base_type_length;
+    long idx, base_type_length;
     void *base;
 
     if (!is_T_LIVE_VAR(array))
@@ -2725,7 +2725,7 @@ static tree eval_array_access(tree t, int depth)
     if (!is_T_INTEGER(index))
         eval_die(index, "Unknown index type\n");
 
-    idx = mpz_get_ui(tINT_VAL(index));
+    idx = mpz_get_si(tINT_VAL(index));
 
     base = tLV_VAL(array)->D_T_PTR;
 
-- 
2.43.0


From b77b896c98f9956f02f55ac0b3d22b07752aa1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 43/95] fix: conversion of negative integers to pointers

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index edc4b5d..46d6afb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1401,7 +1401,10 @@ static void assign_ptr(tree var, tree right)
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
         break;
     case T_INTEGER:
+        /* `mpz_get_ui' ignores the sign. */
         ptr = (void *)mpz_get_ui(tINT_VAL(right));
+        if (mpz_sgn(tINT_VAL(right)) < 0)
+            ptr = (void *)-(uintptr_t)ptr;
         break;
     default:
         eval_die(right, "Could not assign to non-pointer type");
-- 
2.43.0


From 95b00885226f291d88ca86b3b010660b3dee078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 44/95] fix: enumerated types in sizeof and casts

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 46d6afb..8fa9286 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2811,7 +2811,8 @@ static tree eval_type_specifier(tree t, int depth)
     tree type =  resolve_decl_specs_to_type(tTYPE_SPECIFIER_SPECS(t)),
         decl = tTYPE_SPECIFIER_DECL(t);
 
-    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
     while (is_T_POINTER(decl)) {
-- 
2.43.0


From 9b556bba42967eb25529ebd0e158bc75ccf2450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 45/95] fix: NUL characters in string literals

---
 src/lex.m4 | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 31dde5f..48e9b6c 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -25,6 +25,7 @@ static int linenum = 1;
 
 
 static char *sl_buf = NULL;
+static size_t sl_len = 0;
 CSCRIPT_ONLY
     extern void TARGET()_parser_set_file(const char *fname);
 
@@ -62,26 +63,37 @@ ALL_TARGETS
 
 static void sl_begin(void)
 {
-    if (!sl_buf)
-        sl_buf = malloc(1);
-
+    sl_len = 0;
+    sl_buf = realloc(sl_buf, 1);
     sl_buf[0] = '\0';
 }
 
+/* Note that a string literal can contain NUL characters. */
+static void sl_append(const char *s, size_t len)
+{
+    sl_buf = realloc(sl_buf, sl_len + len + 1);
+    memcpy(sl_buf + sl_len, s, len);
+    sl_len += len;
+    sl_buf[sl_len] = '\0';
+}
+
 static void sl_append_str(const char *s)
 {
-    char *old_sl_buf = sl_buf;
-    sl_buf = concat_strings(sl_buf, s);
-    free(old_sl_buf);
+    sl_append(s, strlen(s));
 }
 
 static void sl_append_char(char c)
 {
-    char *s = malloc(2);
-    s[0] = c;
-    s[1] = '\0';
-    sl_append_str(s);
-    free(s);
+    sl_append(&c, 1);
+}
+
+static char *sl_end(void)
+{
+    char *s = malloc(sl_len + 1);
+
+    memcpy(s, sl_buf, sl_len + 1);
+
+    return s;
 }
 
 /* The token that is returned for invalid input, it isn't part of any rule of the
@@ -217,12 +229,12 @@ ALL_TARGETS
 0[xX]{X}+                       mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        return lex_char(LEXTEXT, LEXLVAL.integer);
 \"                              { BEGIN str_lit; sl_begin(); }
-<str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
+<str_lit>[^\\"\n]*              { sl_append_str(LEXTEXT); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
 <str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
-<str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
+<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { BEGIN 0; return lex_err("bogus escape '%s' in string", LEXTEXT); }
 <str_lit>\n                     { BEGIN 0; return lex_err("newline in string"); }
 
-- 
2.43.0


From 1de8e4ba37135702b95c62e4b14e12c15172bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 46/95] fix: members that point to functions returning pointers

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8fa9286..f1f4748 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -779,6 +779,9 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 
     void *base = tLV_COMP_BASE(live_struct);
 
+    /* This could be the type that is returned by a function. */
+    resolve_ptr_type(&decl_element, &decl_type);
+
     if (is_T_FN(decl_element)) {
         tree fn = alloc_copy_tree(decl_element);
         tFN_RET_TYPE(fn) = decl_type;
-- 
2.43.0


From 2748670d40cc4e2419739695a9c35ceb4e51bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 47/95] fix: dereferencing function pointers

---
 src/evaluate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index f1f4748..5ebfe22 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2906,6 +2906,11 @@ static tree eval_deref(tree t, int depth)
         return instantiate_struct(new_type, depth,
                                   tLV_VAL(exp)->D_T_PTR);
 
+    /* Dereferencing a function pointer yields the function, which is converted
+     * back to a pointer to it. */
+    if (is_T_FN(new_type))
+        return exp;
+
     /* All live vars that are created by a pointer dereference won't
      * have their values free'd by the GC. */
     ret = tree_make(T_LIVE_VAR);
-- 
2.43.0


From 5961d1fc93d77b22d6f2ec7ec1c2443b23b0828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 48/95] fix: external compounds, function pointers and arrays
 of unknown size

---
 src/evaluate.c | 89 ++++++++++++++++++++++++++++++++++++++++----------
 src/evaluate.h |  7 ++--
 src/parser.m4  |  8 ++---
 3 files changed, 80 insertions(+), 24 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5ebfe22..e32cf54 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -723,7 +723,12 @@ static void make_and_map_live_var(tree id, tree type)
 static size_t get_array_size(tree array_decl, tree base_type, int depth)
 {
     size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
-    tree no_elements = __evaluate_1(tARRAY_SZ(array_decl), depth + 1);
+    tree no_elements;
+
+    if (!tARRAY_SZ(array_decl))
+        eval_die(array_decl, "Array doesn't have a size\n");
+
+    no_elements = __evaluate_1(tARRAY_SZ(array_decl), depth + 1);
 
     if (is_T_LIVE_VAR(no_elements))
         no_elements = make_int_from_live_var(no_elements);
@@ -1065,40 +1070,79 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     tree live_var, id, previous_decl;
     void *sym_addr;
 
-    resolve_ptr_type(&decl, &extern_type);
+    /* An external array could be of an unknown size, unlike elsewhere that's
+     * still an array. */
+    while (is_T_POINTER(decl)) {
+        tree ptr_type = tree_make(D_T_PTR);
+        tDTPTR_EXP(ptr_type) = extern_type;
+        extern_type = ptr_type;
+        decl = tPTR_EXP(decl);
+    }
 
-    id = decl;
+    if (is_T_FN(decl)) {
+        if (is_T_POINTER(tFN_DECL(decl))) {
+            /* This declares a function pointer, see `handle_declarator'. */
+            tree fn = alloc_copy_tree(decl);
+            tFN_RET_TYPE(fn) = extern_type;
+            tFN_DECL(fn) = NULL;
+            return handle_extern_decl(fn, tFN_DECL(decl));
+        }
 
-    if (is_T_FN(decl))
         return handle_extern_fn(extern_type, decl);
+    }
 
-    if (is_T_ARRAY(decl)) {
-        tree id = tARRAY_DECL(decl);
-        size_t array_sz = get_array_size(decl, extern_type, 0);
-        sym_addr = resolve_symbol(tARRAY_DECL(decl));
-
-        map_identifier(id, instantiate_array(decl, extern_type,
-                                             sym_addr, array_sz));
-
-        return id;
+    if (is_T_ARRAY_TYPE(extern_type)) {
+        tree array = tree_make(T_ARRAY);
+        tARRAY_DECL(array) = decl;
+        tARRAY_SZ(array) = tARRAY_TYPE_SZ(extern_type);
+        extern_type = tARRAY_TYPE_BASE_TYPE(extern_type);
+        decl = array;
     }
 
+    id = is_T_ARRAY(decl) ? tARRAY_DECL(decl) : decl;
+
     /* See if this symbol has already been declared. If it has, and has the same
      * type, just return the already declared symbol.
      */
     previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
     if (previous_decl) {
-        if (TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
+        bool same_type;
+
+        if (is_T_LIVE_COMPOUND(previous_decl))
+            same_type = tLV_COMP_DECL(previous_decl) == extern_type;
+        else if (!is_T_LIVE_VAR(previous_decl))
+            same_type = false;
+        else if (is_T_ARRAY(decl))
+            same_type = tLV_IS_ARRAY(previous_decl);
+        else
+            same_type = TYPE(tLV_TYPE(previous_decl)) == TYPE(extern_type);
+
+        if (!same_type)
             eval_die(decl, "Attempted to redeclare %s with a different type", tID_STR(id));
-        }
 
         return id;
     }
 
-    /* Handle all other types. */
-    sym_addr = resolve_symbol(decl);
+    sym_addr = resolve_symbol(id);
+
+    if (is_T_ARRAY(decl)) {
+        /* The size of an external array doesn't need to be known. */
+        size_t array_sz = tARRAY_SZ(decl) ?
+            get_array_size(decl, extern_type, 0) : 0;
 
+        map_identifier(id, instantiate_array(decl, extern_type,
+                                             sym_addr, array_sz));
+
+        return id;
+    }
+
+    if (is_T_DECL_COMPOUND(extern_type) && tCOMP_DECL_EXPANDED(extern_type)) {
+        map_identifier(id, instantiate_struct(extern_type, 0, sym_addr));
+        return id;
+    }
+
+    /* Handle all other types. */
     live_var = tree_make(T_LIVE_VAR);
     tLV_TYPE(live_var) = extern_type;
     tLV_VAL(live_var) = sym_addr;
@@ -2551,10 +2595,19 @@ static tree eval_decl_compound(tree t, int depth)
     /* Populate the decls with their offsets, as well as the total
      * size of the compound. */
     for_each_tree(i, tCOMP_DECL_DECLS(t)) {
-        tree id, live_var, decl = i;
+        tree id, live_var, decl = i, declarator = tDECL_DECLS(decl);
         tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
         size_t member_size, member_alignment, padding_size;
 
+        /* A flexible array member doesn't take up any space. */
+        while (is_T_POINTER(declarator))
+            declarator = tPTR_EXP(declarator);
+
+        if (is_T_ARRAY(declarator) && !tARRAY_SZ(declarator)) {
+            tARRAY_SZ(declarator) = tree_make(T_INTEGER);
+            mpz_init_set_si(tINT_VAL(tARRAY_SZ(declarator)), 0);
+        }
+
         /* A compound has no scope of its own. The tags of any compounds and
          * the enumerators that are defined by the members belong to the
          * enclosing scope. */
diff --git a/src/evaluate.h b/src/evaluate.h
index 6674c0b..42a2125 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -3,13 +3,16 @@
 #include "tree.h"
 #include "list.h"
 
+/* Note that an array of an unknown size is treated like a pointer to its first
+ * element. */
 static inline void resolve_ptr_type(tree *ptr, tree *base_type)
 {
-    while (*ptr != NULL && is_T_POINTER(*ptr)) {
+    while (*ptr != NULL && (is_T_POINTER(*ptr) ||
+                            (is_T_ARRAY(*ptr) && !tARRAY_SZ(*ptr)))) {
         tree ptr_type = tree_make(D_T_PTR);
         tDTPTR_EXP(ptr_type) = *base_type;
         *base_type = ptr_type;
-        *ptr = tPTR_EXP(*ptr);
+        *ptr = is_T_POINTER(*ptr) ? tPTR_EXP(*ptr) : tARRAY_DECL(*ptr);
     }
 }
 
diff --git a/src/parser.m4 b/src/parser.m4
index 49242cd..eb59e32 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1158,10 +1158,10 @@ direct_declarator
 }
 | direct_declarator '[' ']'
 {
-    tree ptr = tree_make(T_POINTER);
-    tPTR_EXP(ptr) = $1;
-    set_locus(ptr, @2);
-    $$ = ptr;
+    tree array = tree_make(T_ARRAY);
+    tARRAY_DECL(array) = $1;
+    set_locus(array, @2);
+    $$ = array;
 }
 | direct_declarator '(' parameter_type_list ')'
 {
-- 
2.43.0


From 040ba3c34c126cc1636ee1fe75f5295a21c20776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 49/95] fix: preprocess lines at the prompt before parsing
 them, and parse them once

---
 src/evaluate.c   |  3 +++
 src/preprocess.c |  4 +++-
 src/repl.c       | 42 ++++++++++++++++++++++++++----------------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e32cf54..b4346c7 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2994,6 +2994,9 @@ static tree eval_cpp_include(tree t, int depth)
 
     out_file_stream = run_cpp(include_chain, "-E " EXTRA_CPP_OPTS, NULL);
 
+    if (!out_file_stream)
+        exit(1);
+
     cscriptin = out_file_stream;
 
     reset_include_typenames();
diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..6b8f0fb 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,6 +10,7 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* Returns NULL if the preprocessor has rejected the input. */
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
@@ -91,7 +92,8 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   if (ret > 0) {
     fprintf(stderr, "Preprocessor command exited with non-zero status\n");
-    exit (1);
+    fclose(out_file_stream);
+    return NULL;
   }
 
   return out_file_stream;
diff --git a/src/repl.c b/src/repl.c
index 53508b6..b52e46c 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -341,10 +341,23 @@ static char *run_cpp_on_line(char *line)
 {
     char *ret;
     const tree include_chain = get_include_chain();
-    FILE *output = run_cpp(include_chain, "-E -P", line);
-    char c = 0;
+    FILE *output;
+    char c = 0, *marked_line;
     size_t pos = 0,line_len = 0;
 
+    /* Mark the start of the line so that it has a line of its own in the output,
+     * even if nothing is left of it. */
+    if (asprintf(&marked_line, ";%s", line) == -1) {
+        perror("asprintf");
+        exit(1);
+    }
+
+    output = run_cpp(include_chain, "-E -P", marked_line);
+    free(marked_line);
+
+    if (!output)
+        return NULL;
+
     fseek(output, 0, SEEK_END);
 
     do {
@@ -367,6 +380,9 @@ static char *run_cpp_on_line(char *line)
     while (pos != line_len)
         ret[pos++] = fgetc(output);
 
+    /* Remove the mark. */
+    *strchr(ret, ';') = ' ';
+
     return ret;
 }
 
@@ -404,28 +420,22 @@ static tree repl_parse_line(char *line)
 {
     tree stmt;
     char *line_after_cpp;
-    /* Parsing a line happens in two passes.  We firstly parse the
-     * line as given by the user to see whether we are including a
-     * header file.
-     *
-     * If that is the case we simply pass that down to the evaluator
-     * to add to the `include_chain'.
+    /* If the line is including a header file simply pass that down to the
+     * evaluator to add to the `include_chain'.
      *
      * If not, then we copy the line to the end of a small C file that
      * has all the include statments from `inline_chain' before it,
      * preprocess it and then parse that as the tree to be
-     * evaluated. */
+     * evaluated.  Note that the line must only be parsed once, since parsing a
+     * typedef changes how its name is parsed afterwards. */
+    if (line[strspn(line, " \t")] == '#')
+        return repl_do_parse(line);
 
-    stmt = repl_do_parse(line);
+    line_after_cpp = run_cpp_on_line(line);
 
-    if (!stmt)
+    if (!line_after_cpp)
         return NULL;
 
-    if (is_CPP_INCLUDE(stmt))
-        return stmt;
-
-    line_after_cpp = run_cpp_on_line(line);
-
     stmt = repl_do_parse(line_after_cpp);
 
     free(line_after_cpp);
-- 
2.43.0


From b79dddfda47bfc5f3c4f870dd2073757e3747a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 50/95] fix: close and remove the preprocessor's files

---
 src/preprocess.c | 4 ++++
 src/repl.c       | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 6b8f0fb..78e84c7 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -85,6 +85,10 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   free(command);
 
+  /* The stream keeps the output accessible. */
+  unlink(cpp_file_name);
+  unlink(out_file_name);
+
   if (ret < 0) {
     fprintf(stderr, "Invocation of preprocessor process failed\n");
     exit (1);
diff --git a/src/repl.c b/src/repl.c
index b52e46c..12fae63 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -380,6 +380,8 @@ static char *run_cpp_on_line(char *line)
     while (pos != line_len)
         ret[pos++] = fgetc(output);
 
+    fclose(output);
+
     /* Remove the mark. */
     *strchr(ret, ';') = ' ';
 
-- 
2.43.0


From 1dd90f98af9d8e73f457b967faf86866f1ffe8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 51/95] fix: inspection of arrays and compounds

---
 src/evaluate.c | 24 +++++++++++++++---------
 src/inspect.c  | 15 +++++++++++----
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b4346c7..3b5cab0 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -286,6 +286,14 @@ static void map_identifier(tree id, tree t)
     __map_identifer(id, t, tECTX_ID_MAP(cur_ctx));
 }
 
+/* Map an object, declared by `id', and keep track of where that was. */
+static void map_object(tree id, tree object)
+{
+    tLOCUS(object) = tLOCUS(id);
+
+    map_identifier(id, object);
+}
+
 static void map_compound(tree comp_decl, tree t)
 {
     tree id = tCOMP_DECL_ID(comp_decl);
@@ -715,9 +723,8 @@ static void make_and_map_live_var(tree id, tree type)
                  tID_STR(id));
 
     live_var = make_live_var(type);
-    tLOCUS(live_var) = tLOCUS(id);
 
-    map_identifier(id, live_var);
+    map_object(id, live_var);
 }
 
 static size_t get_array_size(tree array_decl, tree base_type, int depth)
@@ -878,7 +885,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
     assert(decl_type);
 
     if (is_T_DECL_COMPOUND(decl_type) && is_T_IDENTIFIER(decl)) {
-        map_identifier(decl, alloc_struct(decl_type, depth));
+        map_object(decl, alloc_struct(decl_type, depth));
         return decl;
     }
 
@@ -896,7 +903,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
         /* We know that since the array was successfully instantiated,
          * the left element of the decl *must* be an identifier. */
-        map_identifier(id, live_var);
+        map_object(id, live_var);
         return id;
     }
 
@@ -1131,14 +1138,14 @@ static tree handle_extern_decl(tree extern_type, tree decl)
         size_t array_sz = tARRAY_SZ(decl) ?
             get_array_size(decl, extern_type, 0) : 0;
 
-        map_identifier(id, instantiate_array(decl, extern_type,
-                                             sym_addr, array_sz));
+        map_object(id, instantiate_array(decl, extern_type,
+                                         sym_addr, array_sz));
 
         return id;
     }
 
     if (is_T_DECL_COMPOUND(extern_type) && tCOMP_DECL_EXPANDED(extern_type)) {
-        map_identifier(id, instantiate_struct(extern_type, 0, sym_addr));
+        map_object(id, instantiate_struct(extern_type, 0, sym_addr));
         return id;
     }
 
@@ -1146,9 +1153,8 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     live_var = tree_make(T_LIVE_VAR);
     tLV_TYPE(live_var) = extern_type;
     tLV_VAL(live_var) = sym_addr;
-    tLOCUS(live_var) = tLOCUS(id);
 
-    map_identifier(id, live_var);
+    map_object(id, live_var);
 
     return id;
 }
diff --git a/src/inspect.c b/src/inspect.c
index 937dccc..7bfee3a 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -49,11 +49,14 @@ static void print_object_type(tree inspect_id, tree resolved_object)
     if (is_T_LIVE_VAR(object_type))
         object_type = tLV_TYPE(object_type);
 
+    if (is_T_LIVE_COMPOUND(object_type))
+        object_type = tLV_COMP_DECL(object_type);
+
     printf("%s is a ", tID_STR(inspect_id));
 
     object_type = handle_pointer_type(object_type);
 
-    if (is_T_DECL_COMPOUND(object_type))
+    if (is_T_DECL_COMPOUND(object_type) && tCOMP_DECL_ID(object_type))
         object_name = tID_STR(tCOMP_DECL_ID(object_type));
     else
         object_name = tree_description_string(object_type);
@@ -64,12 +67,16 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
 {
+    /* Objects that are provided by the interpreter haven't been declared. */
+    if (!tLOCUS(resolved_object).file)
+        return;
+
     printf("%s was declared at: %s:%ld\n", tID_STR(inspect_id),
            tID_STR(tLOCUS(resolved_object).file),
            tLOCUS(resolved_object).line_no);
 }
 
-void inspect_live_var(tree inspect_id, tree resolved_object)
+void inspect_object(tree inspect_id, tree resolved_object)
 {
     print_object_value(inspect_id, resolved_object);
     print_sizeof_object(inspect_id, resolved_object);
@@ -95,8 +102,8 @@ void inspect(tree inspect_id, tree resolved_object)
 
     print_object_type(inspect_id, resolved_object);
 
-    if (is_T_LIVE_VAR(resolved_object))
-        inspect_live_var(inspect_id, resolved_object);
+    if (is_T_LIVE_VAR(resolved_object) || is_T_LIVE_COMPOUND(resolved_object))
+        inspect_object(inspect_id, resolved_object);
 
     if (is_T_FN(resolved_object))
         inspect_function(inspect_id, resolved_object);
-- 
2.43.0


From d87ec72ee0374bf1f881d3317e9af698646a53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 52/95] fix: copy the file name of line markers

---
 src/parser.m4 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.m4 b/src/parser.m4
index eb59e32..0a85862 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -115,7 +115,8 @@ static void maybe_add_typenames(tree decl)
 CSCRIPT_ONLY
     void TARGET()_parser_set_file(const char *fname)
     {
-        TARGET()_current_file = fname;
+        /* The name is a part of the lexer's buffer. */
+        TARGET()_current_file = strdup(fname);
     }
 
     /* Set the body of the function that `declarator' declares. The function is
-- 
2.43.0


From 0b663c7f1f33ada59895b34793283526adcfef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 53/95] fix: lifetime of static objects declared at the prompt

---
 src/evaluate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3b5cab0..86f8fbd 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1270,6 +1270,11 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
    * decls and retain the id_map and alloc chain.  We then use them
    * to construct the E_CTX object. */
   push_ctx("Static declaration");
+
+  /* Static objects live until the program ends, even if the declaration is
+   * reclaimed, as is the case for those that are entered at the prompt. */
+  tECTX_ALLOC_CHAIN(cur_ctx) = tECTX_ALLOC_CHAIN(toplevel_ctx);
+
   if (is_CHAIN_HEAD(decls)) {
     for_each_tree(i, decls) ret = handle_declarator(i, base_type, depth);
   } else
-- 
2.43.0


From a14eb1d8c4abb03bf4aebdf6fadca2d3427306a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 54/95] fix: description of unsigned short

---
 src/c.lang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.lang b/src/c.lang
index 600fd67..76818c2 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -261,7 +261,7 @@
 (defctype D_T_LONG "signed long" "long" "ld" "ival" ffi_type_slong)
 (defctype D_T_LONGLONG "signed long long" "long long" "lld" "ival" ffi_type_slong)
 (defctype D_T_UCHAR "unsigned char" "unsigned char" "u" "ival" ffi_type_uchar)
-(defctype D_T_USHORT "signed short" "unsigned short" "hu" "ival" ffi_type_ushort)
+(defctype D_T_USHORT "unsigned short" "unsigned short" "hu" "ival" ffi_type_ushort)
 (defctype D_T_UINT "unsigned integer" "unsigned int" "u" "ival" ffi_type_uint)
 (defctype D_T_ULONG "unsigned long" "unsigned long" "lu" "ival" ffi_type_ulong)
 (defctype D_T_ULONGLONG "unsigned long long" "unsigned long long" "llu" "ival" ffi_type_ulong)
-- 
2.43.0


From 6a3963003d184ce4de9609733559b733d9fc3960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 55/95] fix: typenames of rejected lines at the prompt

---
 src/repl.c     |  6 ++++++
 src/typename.c | 15 +++++++++++++++
 src/typename.h |  2 ++
 3 files changed, 23 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 12fae63..353d205 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -397,7 +397,13 @@ static tree repl_do_parse(char *line)
 
     YY_BUFFER_STATE buffer = repl_scan_string(line);
     inhibit_gc();
+    typename_mark();
     parse_result = replparse();
+
+    /* A rejected line has no effect on how later lines are parsed. */
+    if (parse_result)
+        typename_rollback();
+
     enable_gc();
     repl_delete_buffer(buffer);
 
diff --git a/src/typename.c b/src/typename.c
index edc5b79..5a87656 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -28,6 +28,21 @@ void add_typename(tree typename_decl)
         add_typename(tPTR_EXP(typename_decl));
 }
 
+static list *type_names_mark;
+
+/* Remember which typenames are known, so that those added from here on can be
+ * forgotten. */
+void typename_mark(void)
+{
+    type_names_mark = type_names->chain.prev;
+}
+
+void typename_rollback(void)
+{
+    while (type_names->chain.prev != type_names_mark)
+        list_del(type_names->chain.prev);
+}
+
 void typename_set_include_file(void)
 {
     in_include_file = 1;
diff --git a/src/typename.h b/src/typename.h
index cd9af85..14dab85 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -1,5 +1,7 @@
 #include "tree.h"
 
+void typename_mark(void);
+void typename_rollback(void);
 void typename_set_include_file(void);
 void typename_unset_include_file(void);
 void reset_include_typenames(void);
-- 
2.43.0


From 66f6d8fa4fb8d7eb32a21fedf9a93dead55f62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 56/95] fix: empty lines at the prompt are not syntax errors

---
 src/repl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 353d205..a980adb 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -444,6 +444,12 @@ static tree repl_parse_line(char *line)
     if (!line_after_cpp)
         return NULL;
 
+    /* There is nothing to parse in empty lines and lines of comments. */
+    if (!line_after_cpp[strspn(line_after_cpp, " \t")]) {
+        free(line_after_cpp);
+        return NULL;
+    }
+
     stmt = repl_do_parse(line_after_cpp);
 
     free(line_after_cpp);
-- 
2.43.0


From a39a26a5bd953b74aa83a9320edf9df566595227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 57/95] fix: completion must not rechain the identifiers of the
 program

---
 src/repl.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index a980adb..08b8c9e 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -137,8 +137,13 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
 
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
-        if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+
+        if (strncmp(tID_STR(id), prefix, strlen(prefix)) != 0)
+            continue;
+
+        /* The identifier could be part of another chain, so add a copy of
+         * it. */
+        tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
-- 
2.43.0


From 4657ef953cb4d47c8eff41af31a1a7224365a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 58/95] fix: complete shadowed names like other names

---
 src/repl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 08b8c9e..a755028 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -133,14 +133,23 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
 void match_identifiers_for_idmap(tree chain, tree idmap,
                                  const char *prefix)
 {
-    tree i;
+    tree i, match;
 
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
+        int already_matched = 0;
 
         if (strncmp(tID_STR(id), prefix, strlen(prefix)) != 0)
             continue;
 
+        /* The same name could have been found in an inner scope. */
+        for_each_tree(match, chain)
+            if (strcmp(tID_STR(id), tID_STR(match)) == 0)
+                already_matched = 1;
+
+        if (already_matched)
+            continue;
+
         /* The identifier could be part of another chain, so add a copy of
          * it. */
         tree_chain(get_identifier(tID_STR(id)), chain);
-- 
2.43.0


From 75bbe9e70c600d341a23c67a0b39ff97ed2b925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 59/95] fix: compound members whose type is a typedef of an
 array

---
 src/evaluate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 86f8fbd..68b3caf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -806,6 +806,14 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     if (is_T_BITFIELD(decl_element))
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
+    if (is_T_ARRAY_TYPE(decl_type)) {
+        tree array = tree_make(T_ARRAY);
+        tARRAY_DECL(array) = decl_element;
+        tARRAY_SZ(array) = tARRAY_TYPE_SZ(decl_type);
+        decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
+        decl_element = array;
+    }
+
     if (is_T_ARRAY(decl_element)) {
         size_t array_sz = get_array_size(decl_element, decl_type, depth);
         live_element = instantiate_array(decl_element, decl_type,
-- 
2.43.0


From d6582d1702dfc9ddfb9619c3e9c0c94b4bea4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 60/95] fix: accept files without any declaration

---
 src/parser.m4 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 0a85862..4641326 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1692,9 +1692,10 @@ CSCRIPT_ONLY
     ;
 
     cscript_translation_unit
-    : cscript_external_declaration
+    : %empty
     {
-        TARGET()_parse_head = tree_chain_head($1);
+        /* Nothing is left of a file that only defines macros. */
+        TARGET()_parse_head = tree_make(CHAIN_HEAD);
         $$ = TARGET()_parse_head;
     }
     | cscript_translation_unit cscript_external_declaration
-- 
2.43.0


From 32564db8e0a4c9c9a517b044eef747dbf2b306a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 61/95] fix: ignore pragmas

---
 src/lex.m4 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 48e9b6c..93da421 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -215,6 +215,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
+"`#'"[ \t]*"pragma"[^\n]*        /* Ignore pragmas */
 "`#'"[ \t]*[0-9]+[ \t]*\"[^\n]*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
-- 
2.43.0


From 60aca12bded4f853d9352c34726a08c35b874965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 62/95] fix: unresolvable external objects are only an error
 when used

---
 src/evaluate.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 68b3caf..e62ffb8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1065,19 +1065,11 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
 
 static void *resolve_symbol(tree id)
 {
-    void *sym_addr;
-
     if (!is_T_IDENTIFIER(id))
         eval_die(id, "attempted to extern something that isn't an "
                  "identifier\n");
 
-    sym_addr = dlsym(RTLD_DEFAULT, tID_STR(id));
-
-    if (!sym_addr)
-        eval_die(id, "Could not resolve extern symbol %s\n",
-                 tID_STR(id));
-
-    return sym_addr;
+    return dlsym(RTLD_DEFAULT, tID_STR(id));
 }
 
 static tree handle_extern_decl(tree extern_type, tree decl)
@@ -1141,6 +1133,11 @@ static tree handle_extern_decl(tree extern_type, tree decl)
 
     sym_addr = resolve_symbol(id);
 
+    /* Headers declare objects of libraries that might not be loaded. It's only an
+     * error to use them. */
+    if (!sym_addr)
+        return id;
+
     if (is_T_ARRAY(decl)) {
         /* The size of an external array doesn't need to be known. */
         size_t array_sz = tARRAY_SZ(decl) ?
-- 
2.43.0


From 6b504bba46f9d792ac0edb84d1025718d265cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 63/95] fix: positions in lines at the prompt

---
 src/lex.m4 | 4 ++++
 src/repl.c | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 93da421..cb8f7ad 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -297,5 +297,9 @@ REPL_ONLY
     void TARGET()_lex_reset(void)
     {
         BEGIN 0;
+
+        /* Positions are those in the line that has been entered. */
+        linenum = 1;
+        colnum = 1;
     }
 ALL_TARGETS
diff --git a/src/repl.c b/src/repl.c
index a755028..e693f5c 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -384,7 +384,10 @@ static char *run_cpp_on_line(char *line)
         line_len++;
     } while (c != '\n' && ftell(output) - 1);
 
-    if (fseek(output, -1, SEEK_CUR) == -1) {
+    if (c == '\n')
+        /* That's the end of the previous line. */
+        line_len--;
+    else if (fseek(output, -1, SEEK_CUR) == -1) {
         perror("fseek");
         exit(1);
     }
-- 
2.43.0


From 61c8113cf7a095f776db0d621c6561cec9b3a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 64/95] fix: headers at the prompt can have any name

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index cb8f7ad..db66563 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -212,7 +212,7 @@ X                               [0-9A-Fa-f]
 "while"				return WHILE;
 
 REPL_ONLY
-"`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
+"`#'include"[ \t]*"<"[^>\n]+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
 "`#'"[ \t]*"pragma"[^\n]*        /* Ignore pragmas */
-- 
2.43.0


From 41e8478eb00aadcd311934660adfb1714250d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 65/95] fix: functions of the program can be declared extern

---
 src/evaluate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e62ffb8..f260a4c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -941,7 +941,8 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
             /* This is the definition of a function that has been declared
              * before. */
-            if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+            if (is_T_EXT_FUNC(previous_decl) ||
+                (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl))) {
                 tree_copy(previous_decl, fn);
                 return decl;
             }
@@ -1051,10 +1052,10 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
         return id;
     }
 
-    if (is_T_EXT_FUNC(previous_decl))
+    /* It could also be a function of the program. */
+    if (is_T_EXT_FUNC(previous_decl) || is_T_FN(previous_decl))
         return id;
 
-
     ext_func = tree_make(T_EXT_FUNC);
     tEXT_FUNC_FN(ext_func) = fndecl;
 
@@ -1095,6 +1096,9 @@ static tree handle_extern_decl(tree extern_type, tree decl)
             return handle_extern_decl(fn, tFN_DECL(decl));
         }
 
+        if (tFN_STMTS(decl))
+            return handle_declarator(decl, extern_type, 0);
+
         return handle_extern_fn(extern_type, decl);
     }
 
-- 
2.43.0


From 36a7f65383a2b14f0a098fa7d6d302a59be00e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 66/95] fix: release the temporaries of a callback when it
 returns

---
 src/evaluate.c      | 12 ++++++++++++
 src/evaluate.h      |  2 ++
 src/function-call.c |  6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index f260a4c..6700d76 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3255,6 +3255,18 @@ tree evaluate_expr(tree t)
     return __evaluate_1(t, 0);
 }
 
+/* Objects that are allocated between these two calls are released once the
+ * callback has returned. */
+void enter_callback(void)
+{
+    push_ctx("<PTRCALL>");
+}
+
+void leave_callback(void)
+{
+    pop_ctx();
+}
+
 static tree handle_builtin_strcpy_chk(tree args)
 {
     /* Transform into a normal call to strcpy, stripping off the last argument.
diff --git a/src/evaluate.h b/src/evaluate.h
index 42a2125..f8ed0dd 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -24,4 +24,6 @@ tree resolve_param_type(tree param);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
+void enter_callback(void);
+void leave_callback(void);
 void eval_init(void);
diff --git a/src/function-call.c b/src/function-call.c
index 98e9bce..ccfedc2 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -178,6 +178,10 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
         fn_call = tree_make(T_FN_CALL);
     int n = 0;
 
+    /* The values of the arguments and the returned value only live until this
+     * invocation ends, not as long as the context of the external call. */
+    enter_callback();
+
     for_each_tree(arg, args) {
         tree new_arg;
 
@@ -202,6 +206,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
 
     set_closure_return_value(tCLOSURE_RET_TYPE(closure), ret,
                              evaluate_expr(fn_call));
+
+    leave_callback();
 }
 
 void *get_entry_point_for_fn(tree fndef)
-- 
2.43.0


From be54538c8b69ba0a7d0240275d6431359327df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 67/95] fix: reject scripts that the preprocessor rejects

---
 src/cscript.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index 09040cf..538ac83 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -51,7 +51,9 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    /* The preprocessor has already printed what is wrong. */
+    if (pclose(f))
+        return 1;
 
     return parse_result;
 }
-- 
2.43.0


From 6e0133d0a1722e77a4aa3da954e62de34a6c18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 68/95] fix: search -I directories for the headers of scripts

---
 src/cscript.c    |  8 ++++++--
 src/preprocess.c | 44 ++++++++++++++++++++++++++------------------
 src/preprocess.h |  1 +
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 538ac83..bb93596 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -3,6 +3,7 @@
 #include "cscriptparser.h"
 #include "evaluate.h"
 #include "gc.h"
+#include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include <string.h>
@@ -28,9 +29,12 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command;
+    char *command, *include_dir_opts = preprocessor_include_dir_opts();
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"",
+             include_dir_opts, fname);
+
+    free(include_dir_opts);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index 78e84c7..541eb7c 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,13 +10,37 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* The options that make the preprocessor search the directories that were given
+ * with -I. The caller has to free the result. */
+char *preprocessor_include_dir_opts(void)
+{
+    char *ret;
+    size_t include_len = 0;
+    tree i;
+
+    if (include_dirs)
+        for_each_tree(i, include_dirs)
+            include_len += strlen(tSTRING_VAL(i)) + 4;
+
+    ret = malloc(include_len + 1);
+    ret[0] = '\0';
+
+    if (include_dirs)
+        for_each_tree(i, include_dirs) {
+            strcat(ret, " -I ");
+            strcat(ret, tSTRING_VAL(i));
+        }
+
+    return ret;
+}
+
 /* Returns NULL if the preprocessor has rejected the input. */
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char out_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char *command;
-  char *include_dir_opts = NULL;
+  char *include_dir_opts;
   FILE *out_file_stream;
   int cpp_file_fd, out_file_fd, ret;
   tree i;
@@ -52,23 +76,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   close(cpp_file_fd);
 
-  if (include_dirs) {
-      size_t include_len = 0;
-
-      for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 4;
-
-      include_dir_opts = malloc(include_len + 1);
-      include_dir_opts[0] = '\0';
-
-      for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I ");
-          strcat(include_dir_opts, tSTRING_VAL(i));
-      }
-  } else {
-      include_dir_opts = malloc(1);
-      include_dir_opts[0] = '\0';
-  }
+  include_dir_opts = preprocessor_include_dir_opts();
 
   ret = asprintf(&command, "gcc %s %s %s > %s", opts, include_dir_opts,
           cpp_file_name, out_file_name);
diff --git a/src/preprocess.h b/src/preprocess.h
index a6050a9..3c2e41c 100644
--- a/src/preprocess.h
+++ b/src/preprocess.h
@@ -1,2 +1,3 @@
 FILE *run_cpp(tree include_chain, char *opts, char *line);
+char *preprocessor_include_dir_opts(void);
 void preprocessor_add_include_dir(char *dir);
-- 
2.43.0


From be778f8ee24ce0c67d2d33d966c4ff4954b0d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 69/95] fix: quote file names for the shell

---
 src/cscript.c    |  9 ++++++---
 src/preprocess.c |  8 ++++++--
 src/util.c       | 21 +++++++++++++++++++++
 src/util.h       |  1 +
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index bb93596..e961e53 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -4,6 +4,7 @@
 #include "evaluate.h"
 #include "gc.h"
 #include "preprocess.h"
+#include "util.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include <string.h>
@@ -29,12 +30,14 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command, *include_dir_opts = preprocessor_include_dir_opts();
+    char *command, *include_dir_opts = preprocessor_include_dir_opts(),
+        *quoted_fname = shell_quote(fname);
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"",
-             include_dir_opts, fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s %s",
+             include_dir_opts, quoted_fname);
 
     free(include_dir_opts);
+    free(quoted_fname);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index 541eb7c..73b5ad1 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -5,6 +5,7 @@
 
 #include "tree.h"
 #include "gc.h"
+#include "util.h"
 #include "preprocess.h"
 
 static tree include_dirs;
@@ -20,15 +21,18 @@ char *preprocessor_include_dir_opts(void)
 
     if (include_dirs)
         for_each_tree(i, include_dirs)
-            include_len += strlen(tSTRING_VAL(i)) + 4;
+            include_len += 4 * strlen(tSTRING_VAL(i)) + 6;
 
     ret = malloc(include_len + 1);
     ret[0] = '\0';
 
     if (include_dirs)
         for_each_tree(i, include_dirs) {
+            char *dir = shell_quote(tSTRING_VAL(i));
+
             strcat(ret, " -I ");
-            strcat(ret, tSTRING_VAL(i));
+            strcat(ret, dir);
+            free(dir);
         }
 
     return ret;
diff --git a/src/util.c b/src/util.c
index 43d0233..45cdc46 100644
--- a/src/util.c
+++ b/src/util.c
@@ -13,3 +13,24 @@ char *concat_strings(const char *s1, const char *s2)
 
     return ret;
 }
+
+/* Quote a word so that the shell takes it as it is. */
+char *shell_quote(const char *s)
+{
+    char *ret = malloc(4 * strlen(s) + 3), *out = ret;
+
+    *out++ = '\'';
+
+    for (; *s; s++)
+        if (*s == '\'') {
+            memcpy(out, "'\\''", 4);
+            out += 4;
+        } else {
+            *out++ = *s;
+        }
+
+    *out++ = '\'';
+    *out = '\0';
+
+    return ret;
+}
diff --git a/src/util.h b/src/util.h
index 96e0960..585ba2b 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,3 +1,4 @@
 #pragma once
 
 char *concat_strings(const char *s1, const char *s2);
+char *shell_quote(const char *s);
-- 
2.43.0


From cb14472810476e144617f3d341c8c840aa3ff080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 70/95] fix: main could be declared before it is defined

---
 src/cscript.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cscript.c b/src/cscript.c
index e961e53..c6e3e38 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -172,6 +172,9 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
                 tree args = tFN_ARGS(fn);
                 tree arg;
 
+                /* There could be a declaration as well as the definition. */
+                num_main_args = 0;
+
                 if (args)
                     for_each_tree(arg, tFN_ARGS(fn))
                         num_main_args++;
-- 
2.43.0


From 2581723da7635c2f7f3b97b238ed8071c80cf1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 71/95] fix: terminate argv with NULL

---
 src/cscript.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index c6e3e38..5fbbbd3 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -83,24 +83,26 @@ static void create_arguments(int argc, char *argv[])
 
     chain = tree_chain_head(argc_decl);
 
-    /* char *argv[n]; */
+    /* char *argv[n + 1]; */
     tree argv_decl = tree_make(T_DECL);
     tree array = tree_make(T_ARRAY);
     tree ptr = tree_make(T_POINTER);
 
     tDECL_SPECS(argv_decl) = tree_chain_head(tree_make(T_CHAR_TS));
 
-    tARRAY_SZ(array) = get_integer(argc);
+    tARRAY_SZ(array) = get_integer(argc + 1);
     tARRAY_DECL(array) = get_identifier("argv");
     tPTR_EXP(ptr) = array;
     tDECL_DECLS(argv_decl) = ptr;
 
     tree_chain(argv_decl, chain);
 
-    /* for (int i = 0; i < n; i++)
+    /* for (int i = 0; i <= n; i++)
      *    argv[i] = <char * address>;
+     *
+     * Where argv[n] is NULL.
      */
-    for (int i = 0; i < argc; i++)
+    for (int i = 0; i <= argc; i++)
     {
         tree assign = tree_make(T_ASSIGN);
         tree array_access = tree_make(T_ARRAY_ACCESS);
-- 
2.43.0


From c7d1d935a42b43358b7b8dd6e5ff5670b50930c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 72/95] fix: the script's name could directly follow -s

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 422c67f..8d89d11 100644
--- a/src/main.c
+++ b/src/main.c
@@ -155,6 +155,8 @@ int main(int argc, char *argv[])
         /* Decrement the option index to include the script name as a
          * parameter. */
         opt_idx--;
+        /* The name could directly follow the option. */
+        argv[opt_idx] = (char *)cscript_file;
         return evaluate_cscript(cscript_file, flag_print_ast, dump_type,
                                 argc - opt_idx, &argv[opt_idx]);
     }
-- 
2.43.0


From add7162a0271773af3c5159e3a9c0a4af045ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 73/95] fix: stray semicolons next to main are no top-level
 code

---
 src/cscript.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index 5fbbbd3..0d2edff 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -185,7 +185,8 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
             }
         }
 
-        if (!is_T_DECL(i))
+        /* A stray semicolon isn't code. */
+        if (!is_T_DECL(i) && !is_T_EMPTY(i))
             has_non_decls = true;
     }
 
-- 
2.43.0


From 97fe37807cab653a2f77d40cb0ccd7e8beef5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 74/95] fix: symbols of opened libraries come before those of
 bic's own

---
 src/evaluate.c |  7 ++++---
 src/main.c     |  7 ++-----
 src/util.c     | 45 +++++++++++++++++++++++++++++++++++++++++++++
 src/util.h     |  4 ++++
 4 files changed, 55 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 6700d76..a5924e5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -12,6 +12,7 @@
 #include "evaluate.h"
 #include "cscriptparser.h"
 #include "function-call.h"
+#include "util.h"
 #include "typename.h"
 #include "repl.h"
 #include "gc.h"
@@ -634,7 +635,7 @@ static tree eval_fn_call(tree t, int depth)
             tree fn_arg_chain = NULL;
             char *function_name = tID_STR(tFN_DECL(function));
             tree i;
-            void *function_address = dlsym(RTLD_DEFAULT, function_name);
+            void *function_address = find_symbol(function_name);
             bool is_variadic = false;
             int variadic_pos = 0;
             tree ret_lv = NULL;
@@ -1070,7 +1071,7 @@ static void *resolve_symbol(tree id)
         eval_die(id, "attempted to extern something that isn't an "
                  "identifier\n");
 
-    return dlsym(RTLD_DEFAULT, tID_STR(id));
+    return find_symbol(tID_STR(id));
 }
 
 static tree handle_extern_decl(tree extern_type, tree decl)
@@ -1188,7 +1189,7 @@ static tree eval_ext_func(tree t, int depth)
         func_addr = &at_quick_exit;
 #endif
     else
-        func_addr = dlsym(RTLD_DEFAULT, tID_STR(id));
+        func_addr = find_symbol(tID_STR(id));
 
     if (!func_addr)
         eval_die(t, "Could not resolve external function %s\n",
diff --git a/src/main.c b/src/main.c
index 8d89d11..2475987 100644
--- a/src/main.c
+++ b/src/main.c
@@ -79,7 +79,7 @@ static int open_library(char *libname)
 
     /* First, attempt to open just the library, if it has been fully
      * specified. */
-    if (dlopen(libname, RTLD_NOW | RTLD_GLOBAL))
+    if (open_shared_object(libname))
         return 1;
 
     /* Append ".so" and prepend "lib" onto `libname' so that we accept
@@ -87,10 +87,7 @@ static int open_library(char *libname)
     tmp = concat_strings("lib", libname);
     full_library_name = concat_strings(tmp, ".so");
 
-    if(dlopen(full_library_name, RTLD_NOW | RTLD_GLOBAL))
-        ret = 1;
-    else
-        ret = 0;
+    ret = open_shared_object(full_library_name);
 
     free(tmp);
     free(full_library_name);
diff --git a/src/util.c b/src/util.c
index 45cdc46..5a1cb1f 100644
--- a/src/util.c
+++ b/src/util.c
@@ -1,7 +1,17 @@
+#define _GNU_SOURCE
 #include "util.h"
+#include <dlfcn.h>
+#include "config.h"
+#if defined(BUILD_LINUX)
+ #include <link.h>
+#endif
 #include <stdlib.h>
 #include <string.h>
 
+/* The shared objects that have been opened, in order. */
+static void **objects;
+static size_t no_objects;
+
 char *concat_strings(const char *s1, const char *s2)
 {
     char *ret = malloc(strlen(s1) + strlen(s2) + 1);
@@ -34,3 +44,38 @@ char *shell_quote(const char *s)
 
     return ret;
 }
+
+bool open_shared_object(const char *name)
+{
+    void *handle = dlopen(name, RTLD_NOW | RTLD_GLOBAL);
+
+    if (!handle)
+        return false;
+
+    objects = realloc(objects, sizeof(*objects) * (no_objects + 1));
+    objects[no_objects++] = handle;
+
+    return true;
+}
+
+/* Find the address of a symbol. The shared objects that have been opened come
+ * before those that bic itself is linked with. */
+void *find_symbol(const char *name)
+{
+#if defined(BUILD_LINUX)
+    size_t i;
+
+    for (i = 0; i < no_objects; i++) {
+        struct link_map *map = objects[i];
+        void *address = dlsym(map, name);
+        Dl_info info;
+
+        /* `dlsym' also searches the objects that this one depends on. */
+        if (address && dladdr(address, &info) &&
+            info.dli_fbase == (void *)map->l_addr)
+            return address;
+    }
+#endif
+
+    return dlsym(RTLD_DEFAULT, name);
+}
diff --git a/src/util.h b/src/util.h
index 585ba2b..97906e4 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,4 +1,8 @@
 #pragma once
 
+#include <stdbool.h>
+
 char *concat_strings(const char *s1, const char *s2);
 char *shell_quote(const char *s);
+bool open_shared_object(const char *name);
+void *find_symbol(const char *name);
-- 
2.43.0


From af3967b452db15a37f0b1a3722a4d3be2d503015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 75/95] fix: escape the strings of a dump of the syntax tree

---
 src/tree-dump-primitives.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index c134a9c..11d7244 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -28,9 +28,20 @@ static inline void tree_dump_flag(tree t, bool flag, enum DUMP_TYPE dt)
 static inline void tree_dump_string(tree t, const char *s, enum DUMP_TYPE dt)
 {
     if (dt == TEXTUAL)
-        fprintf(stderr, "\"%s\"", s);
-    else
-        fprintf(stderr, "%s", s);
+        fputc('"', stderr);
+
+    /* The string is always printed between quotes. */
+    for (; *s; s++)
+        if (*s == '\n')
+            fputs("\\n", stderr);
+        else {
+            if (*s == '"' || *s == '\\')
+                fputc('\\', stderr);
+            fputc(*s, stderr);
+        }
+
+    if (dt == TEXTUAL)
+        fputc('"', stderr);
 }
 
 static inline void tree_dump_jmp_buf(tree t, jmp_buf b, enum DUMP_TYPE dt)
-- 
2.43.0


From 5bb5041e5d623106fbf80d9abef8c46ea81bfaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 76/95] fix: graph dump: a node for each value of a tree

---
 src/gendot.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index e644d86..924f9a6 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -44,13 +44,14 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        }\n");
         } else {
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p_val [label=\\\"\", head);\n");
+            fprintf(f, "        fprintf(stderr, \"tree_%%p_%s [label=\\\"\", head);\n",
+                    prop.first.c_str());
             fprintf(f, "        tree_dump_%s(head, %s(head), DOT);\n",
                     prop.second.baseType.name.c_str(), type.getPropAccessor(prop.first).c_str());
             fprintf(f, "        fprintf(stderr, \"\\\"];\\n\");\n");
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_val [label=\\\"%s\\\"];\\n\", head, head);\n",
-                    prop.first.c_str());
+            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_%s [label=\\\"%s\\\"];\\n\", head, head);\n",
+                    prop.first.c_str(), prop.first.c_str());
         }
     }
 
-- 
2.43.0


From eb8559d638b27b3246ac12b16ff5c81fa1953d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 77/95] fix: line markers between struct or union and its tag

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index db66563..bd56e97 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -216,7 +216,7 @@ REPL_ONLY
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
 "`#'"[ \t]*"pragma"[^\n]*        /* Ignore pragmas */
-"`#'"[ \t]*[0-9]+[ \t]*\"[^\n]*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+<INITIAL,compound_start_cond>"`#'"[ \t]*[0-9]+[ \t]*\"[^\n]*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From c7e816950aeaecc988f703bac737d8d2bfc2baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 78/95] fix: keep the items of nested initializer lists

---
 src/parser.m4 | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 4641326..26f1a5f 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -79,6 +79,21 @@ static tree make_unary_minus(tree exp, YYLTYPE locus)
     }
 }
 
+/* An initializer list can not be a member of another chain, therefore wrap it up
+ * if it is itself an item of an initializer list. */
+static tree make_initializer(tree initializer, YYLTYPE locus)
+{
+    tree list;
+
+    if (!is_CHAIN_HEAD(initializer))
+        return initializer;
+
+    list = tree_make(T_EXPR_LIST);
+    tEXPR_LIST_CHAIN(list) = initializer;
+    set_locus(list, locus);
+    return list;
+}
+
 static void set_binmod_locus(tree assign, YYLTYPE locus)
 {
     set_locus(assign, locus);
@@ -1412,7 +1427,7 @@ initializer
 initializer_list
 : initializer
 {
-    $$ = tree_chain_head($1);
+    $$ = tree_chain_head(make_initializer($1, @1));
 }
 | designation initializer
 {
@@ -1421,7 +1436,7 @@ initializer_list
 }
 | initializer_list ',' initializer
 {
-    tree_chain($3, $1);
+    tree_chain(make_initializer($3, @3), $1);
 }
 | initializer_list ',' designation initializer
 {
-- 
2.43.0


From 8ce538d5b1d821f90941f6014a75ebb9240592af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 79/95] fix: parameters that are declared as arrays are
 pointers

---
 src/evaluate.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index a5924e5..d9ed831 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -596,6 +596,7 @@ static tree eval_fn_call(tree t, int depth)
 
                 for_each_tree(arg_decl, arg_decls) {
                     tree decl_identifier,
+                        param,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
@@ -603,6 +604,15 @@ static tree eval_fn_call(tree t, int depth)
 
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
+                    /* A parameter that is declared as an array is a pointer. */
+                    if (is_T_IDENTIFIER(decl_identifier)) {
+                        param = resolve_identifier(decl_identifier,
+                                                   SCOPE_CURRENT_CTX);
+
+                        if (is_T_LIVE_VAR(param))
+                            tLV_IS_ARRAY(param) = 0;
+                    }
+
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
                     tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
-- 
2.43.0


From 6f5070ae6a6623ddda853f3881286a250489eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 80/95] fix: reject assignments to expressions that aren't
 lvalues

---
 src/evaluate.c | 93 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 20 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d9ed831..93546b3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -520,6 +520,8 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+static tree eval_initialization(tree t, int depth);
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -617,7 +619,7 @@ static tree eval_fn_call(tree t, int depth)
                     tASSIGN_LHS(assign) = decl_identifier;
                     tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     tLOCUS(assign) = tLOCUS(t);
-                    __evaluate_1(assign, depth + 1);
+                    eval_initialization(assign, depth + 1);
                 }
             }
 
@@ -895,6 +897,8 @@ static tree alloc_array(tree array_decl, tree base_type, int depth)
     return live_var;
 }
 
+static tree eval_initialization(tree t, int depth);
+
 static tree handle_declarator(tree decl, tree decl_type, int depth)
 {
     /* Strip off any pointer objects and add them to the base type. */
@@ -979,7 +983,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
         tLOCUS(assign) = tLOCUS(decl);
 
-        __evaluate_1(assign, depth + 1);
+        eval_initialization(assign, depth + 1);
         return ret;
     }
     default:
@@ -1541,15 +1545,11 @@ static tree get_assign_rhs(tree t, tree left)
     return rhs;
 }
 
-static tree eval_assign(tree t, int depth)
+/* Store the value of the right hand side of an assignment. */
+static tree store_rhs(tree t, tree left, int depth)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
     tree right = __evaluate_1(get_assign_rhs(t, left), depth + 1);
 
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     if (!right)
         eval_die(t, "Assigned expression doesn't have a value\n");
 
@@ -1560,6 +1560,64 @@ static tree eval_assign(tree t, int depth)
     return left;
 }
 
+/* Store the initial value of an object. */
+static tree eval_initialization(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    return store_rhs(t, left, depth);
+}
+
+/* The values of many expressions are held by live variables, which doesn't make
+ * them lvalues. */
+static bool designates_object(tree exp)
+{
+    tree i;
+    size_t no_exps = 0;
+
+    switch (TYPE(exp)) {
+    case T_IDENTIFIER:
+    case T_DEREF:
+    case T_ARRAY_ACCESS:
+        return true;
+    case T_COMP_ACCESS:
+        return designates_object(tCOMP_ACCESS_OBJ(exp));
+    case T_EXPR_LIST:
+        for_each_tree(i, tEXPR_LIST_CHAIN(exp)) {
+            if (no_exps++ || !designates_object(i))
+                return false;
+        }
+        return true;
+    default:
+        return false;
+    }
+}
+
+/* Evaluate an operand that is about to be modified. */
+static tree eval_lvalue(tree t, tree exp, int depth)
+{
+    tree ret;
+
+    if (!designates_object(exp))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    ret = __evaluate_1(exp, depth + 1);
+
+    if (!is_T_LIVE_VAR(ret) || tLV_IS_ARRAY(ret))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    return ret;
+}
+
+static tree eval_assign(tree t, int depth)
+{
+    return store_rhs(t, eval_lvalue(t, tASSIGN_LHS(t), depth), depth);
+}
+
 /* The number of bytes that a pointer moves by when 1 is added to it. */
 static size_t get_pointer_step(tree ptr_type, int depth)
 {
@@ -1629,9 +1687,7 @@ static tree get_rvalue(tree var)
 static tree eval_post_inc(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tPINC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = eval_lvalue(t, tPINC_EXP(t), depth);
 
     ret = get_rvalue(exp);
 
@@ -1643,9 +1699,7 @@ static tree eval_post_inc(tree t, int depth)
 static tree eval_inc(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tINC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = eval_lvalue(t, tINC_EXP(t), depth);
 
     live_var_add(exp, 1);
 
@@ -1657,9 +1711,7 @@ static tree eval_inc(tree t, int depth)
 static tree eval_post_dec(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tPDEC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = eval_lvalue(t, tPDEC_EXP(t), depth);
 
     ret = get_rvalue(exp);
     live_var_sub(exp, 1);
@@ -1669,9 +1721,7 @@ static tree eval_post_dec(tree t, int depth)
 static tree eval_dec(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tDEC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = eval_lvalue(t, tDEC_EXP(t), depth);
 
     live_var_sub(exp, 1);
     ret = get_rvalue(exp);
@@ -2949,6 +2999,9 @@ static tree eval_addr(tree t, int depth)
     if (!is_LIVE(exp))
         eval_die(t, "attempted to take address of non-live variable.\n");
 
+    if (!designates_object(tADDR_EXP(t)))
+        eval_die(t, "attempted to take address of something that isn't an object.\n");
+
     if (is_T_LIVE_VAR(exp)) {
         live_type = tLV_TYPE(exp);
         if (tLV_IS_ARRAY(exp))
-- 
2.43.0


From 5a1fa09dae47ca819331c989fa1cc68c56d715d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 81/95] fix: reject arguments to functions without parameters

---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 93546b3..1f0d39b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -560,6 +560,8 @@ static tree eval_fn_call(tree t, int depth)
              * anything is declared in the scope of the function. */
             if (arg_decls)
                 arg_vals = eval_fn_args(arg_vals, depth);
+            else if (arg_vals)
+                eval_die(t, "Invalid number of parameters to function\n");
 
             /* The returned value can't be one of the variables of the function,
              * since their storage is freed along with the contexts of the
@@ -897,8 +899,6 @@ static tree alloc_array(tree array_decl, tree base_type, int depth)
     return live_var;
 }
 
-static tree eval_initialization(tree t, int depth);
-
 static tree handle_declarator(tree decl, tree decl_type, int depth)
 {
     /* Strip off any pointer objects and add them to the base type. */
-- 
2.43.0


From 8b243dfc3aabb6dc81b4e2156406a80ba22a3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 82/95] fix: reject calls of objects that aren't functions

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1f0d39b..e72d69c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -724,7 +724,7 @@ static tree eval_fn_call(tree t, int depth)
         return handler(tFNCALL_ARGS(t));
     }
 
-    return NULL;
+    eval_die(t, "could not call something that isn't a function\n");
 }
 
 static void make_and_map_live_var(tree id, tree type)
-- 
2.43.0


From 7728a6ad760890ccc659a0984a0931b8dd11cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 83/95] fix: reject objects of compound types that are not
 defined

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e72d69c..28fef73 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2643,8 +2643,10 @@ static tree eval_decl_compound(tree t, int depth)
     if (!tCOMP_DECL_DECLS(t)) {
         tree ret = resolve_compound(t, SCOPE_GLOBAL);
 
-        if (!ret)
-            return handle_forward_decl(t);
+        if (!ret) {
+            handle_forward_decl(t);
+            ret = resolve_compound(t, SCOPE_CURRENT_CTX);
+        }
 
         return ret;
     }
-- 
2.43.0


From 8ef6feed58b8fb07a3d474b3a9534b3d4618d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 84/95] fix: reject redefinitions of compound types

---
 src/evaluate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 28fef73..87633cf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2661,6 +2661,12 @@ static tree eval_decl_compound(tree t, int depth)
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
         if (forward_decl) {
+            /* The same declaration can be evaluated again. */
+            if (!is_E_INCOMP_TYPE(forward_decl) &&
+                (tLOCUS(forward_decl).line_no != tLOCUS(t).line_no ||
+                 tLOCUS(forward_decl).column_no != tLOCUS(t).column_no))
+                eval_die(t, "Attempted to redefine %s\n", tID_STR(struct_id));
+
             tree_copy(forward_decl, t);
             t = forward_decl;
         } else
-- 
2.43.0


From 0353cabee7e1f56b5a7a19c2f2e9909002e074c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 85/95] fix: reject members of the compound type that is being
 declared

---
 src/evaluate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 87633cf..36fa171 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -866,7 +866,9 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 {
     tree i, live_struct = tree_make(T_LIVE_COMPOUND);
 
-    assert(tCOMP_DECL_EXPANDED(struct_decl));
+    if (!tCOMP_DECL_EXPANDED(struct_decl))
+        eval_die(struct_decl, "Attempted to declare an object of a compound "
+                 "type that is not complete\n");
 
     tLV_COMP_DECL(live_struct) = struct_decl;
     tLV_COMP_BASE(live_struct) = base;
-- 
2.43.0


From 21b775545cadcd47a4f535cd568bc278a3242b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 86/95] fix: reject members of one name in a compound type

---
 src/evaluate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 36fa171..ca3ca70 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2634,7 +2634,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
-    tree last_enum = NULL;
+    tree last_enum = NULL, members = tree_make(CHAIN_HEAD);
     size_t max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
@@ -2726,6 +2726,11 @@ static tree eval_decl_compound(tree t, int depth)
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
+        if (__resolve_id(id, members))
+            eval_die(id, "Attempted to redefine member %s\n", tID_STR(id));
+
+        __map_identifer(id, live_var, members);
+
         /* Calculate the offset of the member within the struct.
          *
          * The algorithm we use to calculate the offset of a given
-- 
2.43.0


From e94624eacfa23dd846da62670a1e0ea47897a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 87/95] fix: pointers to functions without parameters can be
 called by libraries

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index ca3ca70..037ef6a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -560,7 +560,7 @@ static tree eval_fn_call(tree t, int depth)
              * anything is declared in the scope of the function. */
             if (arg_decls)
                 arg_vals = eval_fn_args(arg_vals, depth);
-            else if (arg_vals)
+            else if (arg_vals && !list_empty(&arg_vals->chain))
                 eval_die(t, "Invalid number of parameters to function\n");
 
             /* The returned value can't be one of the variables of the function,
-- 
2.43.0


From f46f70ab505dcd76fc257490f2954075cbabb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 88/95] fix: reject redefinitions of compound types in other
 files

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 037ef6a..2a5de4a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2665,7 +2665,8 @@ static tree eval_decl_compound(tree t, int depth)
         if (forward_decl) {
             /* The same declaration can be evaluated again. */
             if (!is_E_INCOMP_TYPE(forward_decl) &&
-                (tLOCUS(forward_decl).line_no != tLOCUS(t).line_no ||
+                (tLOCUS(forward_decl).file != tLOCUS(t).file ||
+                 tLOCUS(forward_decl).line_no != tLOCUS(t).line_no ||
                  tLOCUS(forward_decl).column_no != tLOCUS(t).column_no))
                 eval_die(t, "Attempted to redefine %s\n", tID_STR(struct_id));
 
-- 
2.43.0


From 8f8a9f5b3ef21477df2c01544f520f3bd7e32836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 89/95] fix: keywords aren't tags of compound types

---
 src/lex.m4 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index bd56e97..42de72b 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -200,6 +200,12 @@ X                               [0-9A-Fa-f]
 "sizeof"			return SIZEOF;
 "static"			return STATIC;
 "struct"			{ BEGIN compound_start_cond; return STRUCT;}
+<compound_start_cond>("auto"|"break"|"case"|"char"|"const"|"continue"|"default"|"do") |
+<compound_start_cond>("double"|"else"|"enum"|"extern"|"float"|"for"|"goto"|"if"|"int") |
+<compound_start_cond>("inline"|"_Bool"|"long"|"register"|"restrict"|"return"|"short") |
+<compound_start_cond>("signed"|"sizeof"|"static"|"struct"|"switch"|"typedef"|"union") |
+<compound_start_cond>("unsigned"|"void"|"volatile"|"while") {BEGIN 0;
+                        return lex_err("keyword '%s' used as a tag", LEXTEXT); }
 <compound_start_cond>{L}({L}|{D})* {BEGIN 0;
                         LEXLVAL.tree = get_identifier(LEXTEXT);
                         return IDENTIFIER; }
-- 
2.43.0


From ba9808b0aa8dcf72f8727fce39e2562a17ddbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 90/95] fix: accept the auto and register storage classes

---
 src/c.lang | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index 76818c2..ba88ef5 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -314,6 +314,8 @@
 (defspecifier :ignore T_EXTERN)
 (defspecifier :ignore T_TYPEDEF)
 (defspecifier :ignore T_STATIC)
+(defspecifier :ignore T_AUTO)
+(defspecifier :ignore T_REGISTER)
 (defspecifier :self T_IDENTIFIER)
 (defspecifier :self T_DECL_COMPOUND)
 (defspecifier :self T_ENUMERATOR)
-- 
2.43.0


From e1dba7c9d3da53adc0ec4524814886c8bcacfce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 91/95] fix: don't lose precision when a long double becomes an
 integer

---
 src/evaluate.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2a5de4a..ae70517 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1385,8 +1385,15 @@ static tree convert_to_integer(tree t)
             mpz_init_set_d(tINT_VAL(ret), tLV_VAL(t)->D_T_DOUBLE);
             return ret;
         case D_T_LONGDOUBLE:
+            /* A double can't hold all of the integers that a long double
+             * can. */
             ret = tree_make(T_INTEGER);
-            mpz_init_set_d(tINT_VAL(ret), tLV_VAL(t)->D_T_LONGDOUBLE);
+            if (tLV_VAL(t)->D_T_LONGDOUBLE < 0)
+                mpz_init_set_si(tINT_VAL(ret),
+                                (long)tLV_VAL(t)->D_T_LONGDOUBLE);
+            else
+                mpz_init_set_ui(tINT_VAL(ret),
+                                (unsigned long)tLV_VAL(t)->D_T_LONGDOUBLE);
             return ret;
         default:
             return make_int_from_live_var(t);
-- 
2.43.0


From d0585c66d24ea6faf9a14e0e88b8542f7c70dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 92/95] fix: a tag declared on its own belongs to the current
 scope

---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index ae70517..8ef7c8b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1263,9 +1263,9 @@ static tree handle_forward_decl(tree type)
 
     id = tCOMP_DECL_ID(type);
 
-    /* If the declaration already exists, don't attempt to map it
+    /* If the declaration already exists in this scope, don't attempt to map it
      * again. */
-    if (resolve_compound(type, SCOPE_GLOBAL))
+    if (resolve_compound(type, SCOPE_CURRENT_CTX))
         return id;
 
     tree forward_decl = tree_make(E_INCOMP_TYPE);
-- 
2.43.0


From 220bb92ad896aa6da80b84955d6ea68cbe44df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 93/95] fix: an array of unknown size stays an array in a
 typedef

---
 src/evaluate.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8ef7c8b..619280c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -827,6 +827,7 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
         tARRAY_SZ(array) = tARRAY_TYPE_SZ(decl_type);
         decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
         decl_element = array;
+        resolve_ptr_type(&decl_element, &decl_type);
     }
 
     if (is_T_ARRAY(decl_element)) {
@@ -920,6 +921,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         tARRAY_SZ(array) = tARRAY_TYPE_SZ(decl_type);
         decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
         decl = array;
+        resolve_ptr_type(&decl, &decl_type);
     }
 
     if (is_T_ARRAY(decl)) {
@@ -995,7 +997,14 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
 static tree map_typedef(tree id, tree type)
 {
-    resolve_ptr_type(&id, &type);
+    /* An array of an unknown size stays one, what it means depends on the
+     * declaration that uses the type. */
+    while (is_T_POINTER(id)) {
+        tree ptr_type = tree_make(D_T_PTR);
+        tDTPTR_EXP(ptr_type) = type;
+        type = ptr_type;
+        id = tPTR_EXP(id);
+    }
 
     if (is_T_FN(id)) {
         tree fn = alloc_copy_tree(id);
-- 
2.43.0


From feb21a11247b686129b498168c91dc43ee79c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:05 +0000
Subject: [PATCH 94/95] fix: the length of an array type belongs to the scope
 of its typedef

---
 src/evaluate.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 619280c..cac24a8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -742,9 +742,8 @@ static void make_and_map_live_var(tree id, tree type)
     map_object(id, live_var);
 }
 
-static size_t get_array_size(tree array_decl, tree base_type, int depth)
+static tree get_array_length(tree array_decl, int depth)
 {
-    size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
     tree no_elements;
 
     if (!tARRAY_SZ(array_decl))
@@ -758,6 +757,14 @@ static size_t get_array_size(tree array_decl, tree base_type, int depth)
     if (!is_T_INTEGER(no_elements))
         eval_die(array_decl, "Attempted to create array with non-constant size\n");
 
+    return no_elements;
+}
+
+static size_t get_array_size(tree array_decl, tree base_type, int depth)
+{
+    size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
+    tree no_elements = get_array_length(array_decl, depth);
+
     no_elms = mpz_get_ui(tINT_VAL(no_elements));
 
     return sz_of_each_element * no_elms;
@@ -1022,7 +1029,12 @@ static tree map_typedef(tree id, tree type)
     if (is_T_ARRAY(id)) {
         tree array_type = tree_make(T_ARRAY_TYPE);
         tARRAY_TYPE_BASE_TYPE(array_type) = type;
-        tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(id);
+
+        /* The length is an expression of the scope of the typedef, not of the
+         * scopes that use the type. */
+        if (tARRAY_SZ(id))
+            tARRAY_TYPE_SZ(array_type) = get_array_length(id, 0);
+
         id = tARRAY_DECL(id);
         type = array_type;
     }
-- 
2.43.0


From 63ccd44684cd9311ae072c1cc574caa74dad251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:31 +0000
Subject: [PATCH 95/95] fix: members have the types of the scope that declares
 the compound

---
 src/evaluate.c | 62 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index cac24a8..af73dae 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -799,17 +799,17 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base);
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
-        decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+        decl_type = tDECL_SPECS(decl),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
+    /* The type has been resolved when the compound was declared, unless it was
+     * incomplete, see `eval_decl_compound'. */
+    if (is_CHAIN_HEAD(decl_type)) {
+        decl_type = resolve_decl_specs_to_type(decl_type);
 
-    /* The enumerators have already been mapped when the compound was declared,
-     * see `eval_decl_compound'. */
-    if (is_T_ENUMERATOR(decl_type))
-        decl_type = tENUM_ENUMS(decl_type) ? tENUM_TYPE(decl_type) :
-            __evaluate_1(decl_type, depth + 1);
+        if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
+            decl_type = __evaluate_1(decl_type, depth + 1);
+    }
 
     void *base = tLV_COMP_BASE(live_struct);
 
@@ -2719,15 +2719,6 @@ static tree eval_decl_compound(tree t, int depth)
         tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
         size_t member_size, member_alignment, padding_size;
 
-        /* A flexible array member doesn't take up any space. */
-        while (is_T_POINTER(declarator))
-            declarator = tPTR_EXP(declarator);
-
-        if (is_T_ARRAY(declarator) && !tARRAY_SZ(declarator)) {
-            tARRAY_SZ(declarator) = tree_make(T_INTEGER);
-            mpz_init_set_si(tINT_VAL(tARRAY_SZ(declarator)), 0);
-        }
-
         /* A compound has no scope of its own. The tags of any compounds and
          * the enumerators that are defined by the members belong to the
          * enclosing scope. */
@@ -2739,22 +2730,47 @@ static tree eval_decl_compound(tree t, int depth)
 
         last_enum = type;
 
+        while (is_T_POINTER(declarator) || is_T_FN(declarator))
+            declarator = is_T_FN(declarator) ? tFN_DECL(declarator) :
+                tPTR_EXP(declarator);
+
+        if (is_T_ARRAY(declarator)) {
+            if (tARRAY_SZ(declarator))
+                tARRAY_SZ(declarator) = get_array_length(declarator, depth);
+            else {
+                /* A flexible array member doesn't take up any space. */
+                tARRAY_SZ(declarator) = tree_make(T_INTEGER);
+                mpz_init_set_si(tINT_VAL(tARRAY_SZ(declarator)), 0);
+            }
+        }
+
         /* To calculate the size of each element of the compound, we
          * temporarily push the evaluation ctx, evaluate each decl
          * within the new evaluation ctx, resolve the identifier back
          * to it's live var and finally pass that through a sizeof()
-         * evaluation.
-         *
-         * NOTE: we don't evaluate the types of the decls here as we
-         * could create a loop back to ourselves (when declaring a
-         * pointer to the same struct).  Instead, we evaluate all decl
-         * types at struct installation time. */
+         * evaluation. */
         push_ctx("Compound Declaration");
 
         id = __evaluate_1(decl, depth + 1);
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
+        /* The scope in which the compound is instantiated can have other
+         * objects with the name of the type. Therefore, keep the type unless it
+         * is yet to be completed. */
+        if (is_T_IDENTIFIER(type))
+            type = __evaluate_1(type, depth + 1);
+
+        if (is_T_ENUMERATOR(type))
+            type = tENUM_ENUMS(type) ? tENUM_TYPE(type) :
+                __evaluate_1(type, depth + 1);
+
+        if (is_T_DECL_COMPOUND(type) && !tCOMP_DECL_DECLS(type))
+            type = resolve_compound(type, SCOPE_GLOBAL);
+
+        if (!is_E_INCOMP_TYPE(type))
+            tDECL_SPECS(decl) = type;
+
         if (__resolve_id(id, members))
             eval_die(id, "Attempted to redefine member %s\n", tID_STR(id));
 
-- 
2.43.0

