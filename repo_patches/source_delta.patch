From 77c0e6144379e393da9a19511c50a96f6fb54eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 01/25] fix: forget the parameters when a result is reset or
 its statements are released

SQLParserResult::parameters() kept pointing to deleted expressions, and the
next parse into the result sorted them together with its own.
---
 src/SQLParserResult.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index b8a4343..49dcb00 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -53,6 +53,8 @@ std::vector<SQLStatement*> SQLParserResult::releaseStatements() {
   std::vector<SQLStatement*> copy = statements_;
 
   statements_.clear();
+  // The parameters are part of the released statements.
+  parameters_.clear();
 
   return copy;
 }
@@ -65,6 +67,9 @@ void SQLParserResult::reset() {
 
   isValid_ = false;
 
+  // The parameters are part of the statements deleted above.
+  parameters_.clear();
+
   free(errorMsg_);
   errorMsg_ = nullptr;
   errorLine_ = -1;
-- 
2.43.0


From f22390a0faeacd7fdaad93b830cbaee6aa16fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 02/25] fix: move all contents of a parser result and dispose
 of the overwritten ones

Moving lost the error position and the parameters, overwriting leaked the
target's statements and error message, and a new result had an undefined
error position.
---
 src/SQLParserResult.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index 49dcb00..a55fd38 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -4,17 +4,28 @@
 
 namespace hsql {
 
-SQLParserResult::SQLParserResult() : isValid_(false), errorMsg_(nullptr) {}
+SQLParserResult::SQLParserResult() : isValid_(false), errorMsg_(nullptr), errorLine_(-1), errorColumn_(-1) {}
 
-SQLParserResult::SQLParserResult(SQLStatement* stmt) : isValid_(false), errorMsg_(nullptr) { addStatement(stmt); }
+SQLParserResult::SQLParserResult(SQLStatement* stmt) : SQLParserResult() { addStatement(stmt); }
 
 // Move constructor.
-SQLParserResult::SQLParserResult(SQLParserResult&& moved) { *this = std::forward<SQLParserResult>(moved); }
+SQLParserResult::SQLParserResult(SQLParserResult&& moved) : SQLParserResult() {
+  *this = std::forward<SQLParserResult>(moved);
+}
 
 SQLParserResult& SQLParserResult::operator=(SQLParserResult&& moved) {
+  if (this == &moved) {
+    return *this;
+  }
+
+  reset();
+
   isValid_ = moved.isValid_;
   errorMsg_ = moved.errorMsg_;
+  errorLine_ = moved.errorLine_;
+  errorColumn_ = moved.errorColumn_;
   statements_ = std::move(moved.statements_);
+  parameters_ = std::move(moved.parameters_);
 
   moved.errorMsg_ = nullptr;
   moved.reset();
-- 
2.43.0


From fe80c5de33b89c04cef0f863f35505f7b5e1cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 03/25] fix: release the previous error message when another
 one is set

A CREATE TABLE with several conflicting columns reports several errors.
---
 src/SQLParserResult.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index a55fd38..a8aa924 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -53,6 +53,7 @@ int SQLParserResult::errorColumn() const { return errorColumn_; }
 void SQLParserResult::setIsValid(bool isValid) { isValid_ = isValid; }
 
 void SQLParserResult::setErrorDetails(char* errorMsg, int errorLine, int errorColumn) {
+  free(errorMsg_);
   errorMsg_ = errorMsg;
   errorLine_ = errorLine;
   errorColumn_ = errorColumn;
-- 
2.43.0


From 71111a50c4b17da041d58906ecaaaba494e763be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 04/25] fix: end a comment exactly at its line end

With an inclusive COMMENT state the whitespace rule was longer than the end
of line rule, so an indented or empty line after a comment was skipped too.
---
 src/parser/flex_lexer.cpp | 3654 ++++++++++---------------------------
 src/parser/flex_lexer.h   |  473 ++++-
 src/parser/flex_lexer.l   |    2 +-
 3 files changed, 1435 insertions(+), 2694 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 5be72ee..3400b99 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -9,11 +9,245 @@
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
 #define YY_FLEX_MINOR_VERSION 6
-#define YY_FLEX_SUBMINOR_VERSION 1
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
 
+#ifdef yy_create_buffer
+#define hsql__create_buffer_ALREADY_DEFINED
+#else
+#define yy_create_buffer hsql__create_buffer
+#endif
+
+#ifdef yy_delete_buffer
+#define hsql__delete_buffer_ALREADY_DEFINED
+#else
+#define yy_delete_buffer hsql__delete_buffer
+#endif
+
+#ifdef yy_scan_buffer
+#define hsql__scan_buffer_ALREADY_DEFINED
+#else
+#define yy_scan_buffer hsql__scan_buffer
+#endif
+
+#ifdef yy_scan_string
+#define hsql__scan_string_ALREADY_DEFINED
+#else
+#define yy_scan_string hsql__scan_string
+#endif
+
+#ifdef yy_scan_bytes
+#define hsql__scan_bytes_ALREADY_DEFINED
+#else
+#define yy_scan_bytes hsql__scan_bytes
+#endif
+
+#ifdef yy_init_buffer
+#define hsql__init_buffer_ALREADY_DEFINED
+#else
+#define yy_init_buffer hsql__init_buffer
+#endif
+
+#ifdef yy_flush_buffer
+#define hsql__flush_buffer_ALREADY_DEFINED
+#else
+#define yy_flush_buffer hsql__flush_buffer
+#endif
+
+#ifdef yy_load_buffer_state
+#define hsql__load_buffer_state_ALREADY_DEFINED
+#else
+#define yy_load_buffer_state hsql__load_buffer_state
+#endif
+
+#ifdef yy_switch_to_buffer
+#define hsql__switch_to_buffer_ALREADY_DEFINED
+#else
+#define yy_switch_to_buffer hsql__switch_to_buffer
+#endif
+
+#ifdef yypush_buffer_state
+#define hsql_push_buffer_state_ALREADY_DEFINED
+#else
+#define yypush_buffer_state hsql_push_buffer_state
+#endif
+
+#ifdef yypop_buffer_state
+#define hsql_pop_buffer_state_ALREADY_DEFINED
+#else
+#define yypop_buffer_state hsql_pop_buffer_state
+#endif
+
+#ifdef yyensure_buffer_stack
+#define hsql_ensure_buffer_stack_ALREADY_DEFINED
+#else
+#define yyensure_buffer_stack hsql_ensure_buffer_stack
+#endif
+
+#ifdef yylex
+#define hsql_lex_ALREADY_DEFINED
+#else
+#define yylex hsql_lex
+#endif
+
+#ifdef yyrestart
+#define hsql_restart_ALREADY_DEFINED
+#else
+#define yyrestart hsql_restart
+#endif
+
+#ifdef yylex_init
+#define hsql_lex_init_ALREADY_DEFINED
+#else
+#define yylex_init hsql_lex_init
+#endif
+
+#ifdef yylex_init_extra
+#define hsql_lex_init_extra_ALREADY_DEFINED
+#else
+#define yylex_init_extra hsql_lex_init_extra
+#endif
+
+#ifdef yylex_destroy
+#define hsql_lex_destroy_ALREADY_DEFINED
+#else
+#define yylex_destroy hsql_lex_destroy
+#endif
+
+#ifdef yyget_debug
+#define hsql_get_debug_ALREADY_DEFINED
+#else
+#define yyget_debug hsql_get_debug
+#endif
+
+#ifdef yyset_debug
+#define hsql_set_debug_ALREADY_DEFINED
+#else
+#define yyset_debug hsql_set_debug
+#endif
+
+#ifdef yyget_extra
+#define hsql_get_extra_ALREADY_DEFINED
+#else
+#define yyget_extra hsql_get_extra
+#endif
+
+#ifdef yyset_extra
+#define hsql_set_extra_ALREADY_DEFINED
+#else
+#define yyset_extra hsql_set_extra
+#endif
+
+#ifdef yyget_in
+#define hsql_get_in_ALREADY_DEFINED
+#else
+#define yyget_in hsql_get_in
+#endif
+
+#ifdef yyset_in
+#define hsql_set_in_ALREADY_DEFINED
+#else
+#define yyset_in hsql_set_in
+#endif
+
+#ifdef yyget_out
+#define hsql_get_out_ALREADY_DEFINED
+#else
+#define yyget_out hsql_get_out
+#endif
+
+#ifdef yyset_out
+#define hsql_set_out_ALREADY_DEFINED
+#else
+#define yyset_out hsql_set_out
+#endif
+
+#ifdef yyget_leng
+#define hsql_get_leng_ALREADY_DEFINED
+#else
+#define yyget_leng hsql_get_leng
+#endif
+
+#ifdef yyget_text
+#define hsql_get_text_ALREADY_DEFINED
+#else
+#define yyget_text hsql_get_text
+#endif
+
+#ifdef yyget_lineno
+#define hsql_get_lineno_ALREADY_DEFINED
+#else
+#define yyget_lineno hsql_get_lineno
+#endif
+
+#ifdef yyset_lineno
+#define hsql_set_lineno_ALREADY_DEFINED
+#else
+#define yyset_lineno hsql_set_lineno
+#endif
+
+#ifdef yyget_column
+#define hsql_get_column_ALREADY_DEFINED
+#else
+#define yyget_column hsql_get_column
+#endif
+
+#ifdef yyset_column
+#define hsql_set_column_ALREADY_DEFINED
+#else
+#define yyset_column hsql_set_column
+#endif
+
+#ifdef yywrap
+#define hsql_wrap_ALREADY_DEFINED
+#else
+#define yywrap hsql_wrap
+#endif
+
+#ifdef yyget_lval
+#define hsql_get_lval_ALREADY_DEFINED
+#else
+#define yyget_lval hsql_get_lval
+#endif
+
+#ifdef yyset_lval
+#define hsql_set_lval_ALREADY_DEFINED
+#else
+#define yyset_lval hsql_set_lval
+#endif
+
+#ifdef yyget_lloc
+#define hsql_get_lloc_ALREADY_DEFINED
+#else
+#define yyget_lloc hsql_get_lloc
+#endif
+
+#ifdef yyset_lloc
+#define hsql_set_lloc_ALREADY_DEFINED
+#else
+#define yyset_lloc hsql_set_lloc
+#endif
+
+#ifdef yyalloc
+#define hsql_alloc_ALREADY_DEFINED
+#else
+#define yyalloc hsql_alloc
+#endif
+
+#ifdef yyrealloc
+#define hsql_realloc_ALREADY_DEFINED
+#else
+#define yyrealloc hsql_realloc
+#endif
+
+#ifdef yyfree
+#define hsql_free_ALREADY_DEFINED
+#else
+#define yyfree hsql_free
+#endif
+
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
@@ -84,10 +318,16 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
+/* begin standard C++ headers. */
+
 /* TODO: this is always defined, so inline it */
 #define yyconst const
 
@@ -100,12 +340,10 @@ typedef unsigned int flex_uint32_t;
 /* Returned upon end-of-file. */
 #define YY_NULL 0
 
-/* Promotes a possibly negative, possibly signed char to an unsigned
- * integer for use as an array index.  If the signed char is negative,
- * we want to instead treat it as an 8-bit unsigned char, hence the
- * double cast.
+/* Promotes a possibly negative, possibly signed char to an
+ *   integer in range [0..255] for use as an array index.
  */
-#define YY_SC_TO_UI(c) ((unsigned int) (unsigned char) c)
+#define YY_SC_TO_UI(c) ((YY_CHAR) (c))
 
 /* An opaque pointer. */
 #ifndef YY_TYPEDEF_YY_SCANNER_T
@@ -129,20 +367,16 @@ typedef void* yyscan_t;
  * definition of BEGIN.
  */
 #define BEGIN yyg->yy_start = 1 + 2 *
-
 /* Translate the current start state into a value that can be later handed
  * to BEGIN to return to the state.  The YYSTATE alias is for lex
  * compatibility.
  */
 #define YY_START ((yyg->yy_start - 1) / 2)
 #define YYSTATE YY_START
-
 /* Action number for EOF rule of a given start state. */
 #define YY_STATE_EOF(state) (YY_END_OF_BUFFER + state + 1)
-
 /* Special action meaning "start processing a new file". */
-#define YY_NEW_FILE hsql_restart(yyin ,yyscanner )
-
+#define YY_NEW_FILE yyrestart( yyin , yyscanner )
 #define YY_END_OF_BUFFER_CHAR 0
 
 /* Size of default input buffer. */
@@ -175,7 +409,7 @@ typedef size_t yy_size_t;
 #define EOB_ACT_CONTINUE_SCAN 0
 #define EOB_ACT_END_OF_FILE 1
 #define EOB_ACT_LAST_MATCH 2
-
+    
     #define YY_LESS_LINENO(n)
     #define YY_LINENO_REWIND_TO(ptr)
     
@@ -184,7 +418,7 @@ typedef size_t yy_size_t;
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		*yy_cp = yyg->yy_hold_char; \
 		YY_RESTORE_YY_MORE_OFFSET \
@@ -192,7 +426,6 @@ typedef size_t yy_size_t;
 		YY_DO_BEFORE_ACTION; /* set up yytext again */ \
 		} \
 	while ( 0 )
-
 #define unput(c) yyunput( c, yyg->yytext_ptr , yyscanner )
 
 #ifndef YY_STRUCT_YY_BUFFER_STATE
@@ -235,7 +468,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -252,7 +485,7 @@ struct yy_buffer_state
 	 * possible backing-up.
 	 *
 	 * When we actually see the EOF, we change the status to "new"
-	 * (via hsql_restart()), so that the user can continue scanning by
+	 * (via yyrestart()), so that the user can continue scanning by
 	 * just pointing yyin at a new input file.
 	 */
 #define YY_BUFFER_EOF_PENDING 2
@@ -269,73 +502,67 @@ struct yy_buffer_state
 #define YY_CURRENT_BUFFER ( yyg->yy_buffer_stack \
                           ? yyg->yy_buffer_stack[yyg->yy_buffer_stack_top] \
                           : NULL)
-
 /* Same as previous macro, but useful when we know that the buffer stack is not
  * NULL or when we need an lvalue. For internal use only.
  */
 #define YY_CURRENT_BUFFER_LVALUE yyg->yy_buffer_stack[yyg->yy_buffer_stack_top]
 
-void hsql_restart (FILE *input_file ,yyscan_t yyscanner );
-void hsql__switch_to_buffer (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__create_buffer (FILE *file,int size ,yyscan_t yyscanner );
-void hsql__delete_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql__flush_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-void hsql_pop_buffer_state (yyscan_t yyscanner );
+void yyrestart ( FILE *input_file , yyscan_t yyscanner );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size , yyscan_t yyscanner );
+void yy_delete_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yy_flush_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+void yypop_buffer_state ( yyscan_t yyscanner );
 
-static void hsql_ensure_buffer_stack (yyscan_t yyscanner );
-static void hsql__load_buffer_state (yyscan_t yyscanner );
-static void hsql__init_buffer (YY_BUFFER_STATE b,FILE *file ,yyscan_t yyscanner );
+static void yyensure_buffer_stack ( yyscan_t yyscanner );
+static void yy_load_buffer_state ( yyscan_t yyscanner );
+static void yy_init_buffer ( YY_BUFFER_STATE b, FILE *file , yyscan_t yyscanner );
+#define YY_FLUSH_BUFFER yy_flush_buffer( YY_CURRENT_BUFFER , yyscanner)
 
-#define YY_FLUSH_BUFFER hsql__flush_buffer(YY_CURRENT_BUFFER ,yyscanner)
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
-YY_BUFFER_STATE hsql__scan_buffer (char *base,yy_size_t size ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_string (yyconst char *yy_str ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_bytes (yyconst char *bytes,int len ,yyscan_t yyscanner );
-
-void *hsql_alloc (yy_size_t ,yyscan_t yyscanner );
-void *hsql_realloc (void *,yy_size_t ,yyscan_t yyscanner );
-void hsql_free (void * ,yyscan_t yyscanner );
-
-#define yy_new_buffer hsql__create_buffer
+void *yyalloc ( yy_size_t , yyscan_t yyscanner );
+void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
+void yyfree ( void * , yyscan_t yyscanner );
 
+#define yy_new_buffer yy_create_buffer
 #define yy_set_interactive(is_interactive) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){ \
-        hsql_ensure_buffer_stack (yyscanner); \
+        yyensure_buffer_stack (yyscanner); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner); \
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_is_interactive = is_interactive; \
 	}
-
 #define yy_set_bol(at_bol) \
 	{ \
 	if ( ! YY_CURRENT_BUFFER ){\
-        hsql_ensure_buffer_stack (yyscanner); \
+        yyensure_buffer_stack (yyscanner); \
 		YY_CURRENT_BUFFER_LVALUE =    \
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner); \
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner); \
 	} \
 	YY_CURRENT_BUFFER_LVALUE->yy_at_bol = at_bol; \
 	}
-
 #define YY_AT_BOL() (YY_CURRENT_BUFFER_LVALUE->yy_at_bol)
 
 /* Begin user sect3 */
 
 #define hsql_wrap(yyscanner) (/*CONSTCOND*/1)
 #define YY_SKIP_YYWRAP
-
-typedef unsigned char YY_CHAR;
+typedef flex_uint8_t YY_CHAR;
 
 typedef int yy_state_type;
 
 #define yytext_ptr yytext_r
 
-static yy_state_type yy_get_previous_state (yyscan_t yyscanner );
-static yy_state_type yy_try_NUL_trans (yy_state_type current_state  ,yyscan_t yyscanner);
-static int yy_get_next_buffer (yyscan_t yyscanner );
-static void yynoreturn yy_fatal_error (yyconst char* msg ,yyscan_t yyscanner );
+static yy_state_type yy_get_previous_state ( yyscan_t yyscanner );
+static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  , yyscan_t yyscanner);
+static int yy_get_next_buffer ( yyscan_t yyscanner );
+static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 
 /* Done after the current pattern has been matched and before the
  * corresponding action - sets up yytext.
@@ -346,7 +573,6 @@ static void yynoreturn yy_fatal_error (yyconst char* msg ,yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-
 #define YY_NUM_RULES 189
 #define YY_END_OF_BUFFER 190
 /* This struct is not used in this scanner,
@@ -356,118 +582,64 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static yyconst flex_int16_t yy_accept[1368] =
+static const flex_int16_t yy_accept[693] =
     {   0,
         0,    0,  186,  186,    2,    2,  190,  188,    4,    4,
       188,  188,  177,  184,  177,  177,  181,  177,  177,  177,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  177,  186,  187,    2,    2,    3,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    4,  172,    0,    1,    0,
-      179,  178,  181,  174,  173,  171,  175,  183,  183,  183,
-
-      183,  183,  183,   12,  183,  183,  183,   19,  183,  183,
+      183,  183,  183,  183,  177,  186,  187,    2,    3,    4,
+      172,    0,    1,    0,  179,  178,  181,  174,  173,  171,
+      175,  183,  183,  183,  183,  183,  183,   12,  183,  183,
+      183,   19,  183,  183,  183,  183,  183,  183,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   73,  183,  183,   76,   85,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  103,  183,  183,
-      108,  111,  112,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  149,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  176,  186,  185,    2,    2,    2,    2,
-        1,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,  182,    0,  178,    5,
-      183,    7,  183,  183,   10,  183,   13,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,   73,  183,  183,
 
+       76,   85,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  103,  183,  183,  108,  111,  112,  183,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   34,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,   49,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,   60,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-       80,  183,  183,   88,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  104,  183,  183,  183,  109,  183,
+      183,  183,  183,  183,  183,  183,  183,  149,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  176,  186,  185,
+        2,  182,    0,  178,    5,  183,    7,  183,  183,   10,
+      183,   13,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,   34,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  135,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  150,
+       49,  183,  183,  183,  183,  183,  183,  183,  183,  183,
 
+      183,   60,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,   80,  183,  183,   88,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  183,  104,
+      183,  183,  183,  109,  183,  183,  183,  183,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    0,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,   20,  183,   22,   23,   24,  183,  183,  183,
-       29,  183,  183,  183,   32,   35,  183,  183,  183,  183,
-      183,   41,  183,  183,  183,   46,   47,  183,  183,  183,
-      183,  183,  183,  183,  183,   57,  183,  183,  183,  183,
-       63,   64,  183,  183,   68,  183,   70,   71,  183,  183,
-
-      183,  183,  183,  183,   84,  183,   87,   89,   90,  183,
-       92,  183,  183,   95,  183,  183,  183,  183,  183,  106,
-      183,  183,  183,  183,  115,  183,  183,  118,  183,  183,
-      183,  183,  123,  183,  183,  183,  183,  183,  129,  183,
-      183,  183,  183,  137,  138,  183,  183,  183,  183,  183,
-      145,  146,  147,  183,  152,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  162,  183,  164,  183,  166,  167,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    0,    6,
-
-        8,  183,   11,  183,   15,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,   31,  183,  183,  183,  183,  183,
-      183,   40,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   56,   58,  183,  183,  183,  183,   66,
-      183,   72,   74,  183,   77,   78,  183,  183,  183,  183,
-       91,   93,  183,   96,   97,  183,  100,  183,  183,  183,
-      183,  113,  114,  183,  183,  183,  183,  183,  122,  183,
-      183,  183,  127,  183,  183,  183,  183,  136,  183,  183,
-      183,  142,  183,  183,  183,  183,  183,  155,  183,  183,
-      183,  159,  183,  183,  183,  165,  168,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,  183,   14,  183,
-
+      183,  183,  135,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  150,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  183,    0,
+      183,  183,  183,  183,  183,  183,  183,  183,  183,   20,
+      183,   22,   23,   24,  183,  183,  183,   29,  183,  183,
+
+      183,   32,   35,  183,  183,  183,  183,  183,   41,  183,
+      183,  183,   46,   47,  183,  183,  183,  183,  183,  183,
+      183,  183,   57,  183,  183,  183,  183,   63,   64,  183,
+      183,   68,  183,   70,   71,  183,  183,  183,  183,  183,
+      183,   84,  183,   87,   89,   90,  183,   92,  183,  183,
+       95,  183,  183,  183,  183,  183,  106,  183,  183,  183,
+      183,  115,  183,  183,  118,  183,  183,  183,  183,  123,
+      183,  183,  183,  183,  183,  129,  183,  183,  183,  183,
+      137,  138,  183,  183,  183,  183,  183,  145,  146,  147,
+      183,  152,  183,  183,  183,  183,  183,  183,  183,  183,
+
+      183,  162,  183,  164,  183,  166,  167,    0,    6,    8,
+      183,   11,  183,   15,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,   31,  183,  183,  183,  183,  183,  183,
+       40,  183,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,   56,   58,  183,  183,  183,  183,   66,  183,
+       72,   74,  183,   77,   78,  183,  183,  183,  183,   91,
+       93,  183,   96,   97,  183,  100,  183,  183,  183,  183,
+      113,  114,  183,  183,  183,  183,  183,  122,  183,  183,
+      183,  127,  183,  183,  183,  183,  136,  183,  183,  183,
+      142,  183,  183,  183,  183,  183,  155,  183,  183,  183,
+
+      159,  183,  183,  183,  165,  168,    0,  183,   14,  183,
        17,  183,  183,  183,   25,   27,  183,   30,  183,  183,
       183,  183,  183,   39,  183,   43,  183,   45,  183,   50,
        51,  183,   53,  183,  183,  183,  183,   62,   65,   67,
@@ -475,42 +647,23 @@ static yyconst flex_int16_t yy_accept[1368] =
       183,  105,  183,  110,  183,  183,  183,  183,  183,  183,
       125,  183,  183,  130,  132,  134,  183,  140,  183,  143,
       183,  183,  183,  183,  183,  156,  157,  158,  160,  183,
-      183,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,    9,   16,   18,
-       21,  183,   26,   28,  183,  183,  183,   37,   38,  183,
-      183,  183,   52,   54,   55,  183,   61,   81,  183,  183,
-       99,  102,  183,  183,  183,  183,  120,  121,  183,  183,
-      183,  131,  133,  183,  141,  183,  183,  183,  183,  183,
-      161,  163,    2,    2,    2,    2,    2,    2,    2,    2,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    0,  183,
-        0,   33,  183,   42,   44,   48,  183,  183,   83,  107,
-      183,  183,  183,  183,  126,  128,  139,  183,  183,  183,
-      153,  183,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    2,    2,    0,  183,    0,  183,
-       59,   82,  183,  117,  119,  183,  144,  148,  183,  154,
-
-        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
-        2,    2,    2,    2,    0,    0,    0,   36,  116,  124,
-      183,    2,    2,    2,    2,    2,    2,    2,    0,    0,
-      169,  151,    2,    2,    2,    2,    0,    0,    2,    2,
-        0,    0,    2,    2,    0,    0,    2,    2,    0,    0,
-        2,    2,    0,    0,    2,    2,    0,  170,    2,    2,
-        0,    2,    0,    2,  180,    2,    0
+      183,    0,    9,   16,   18,   21,  183,   26,   28,  183,
+      183,  183,   37,   38,  183,  183,  183,   52,   54,   55,
+
+      183,   61,   81,  183,  183,   99,  102,  183,  183,  183,
+      183,  120,  121,  183,  183,  183,  131,  133,  183,  141,
+      183,  183,  183,  183,  183,  161,  163,    0,  183,    0,
+       33,  183,   42,   44,   48,  183,  183,   83,  107,  183,
+      183,  183,  183,  126,  128,  139,  183,  183,  183,  153,
+      183,    0,  183,    0,  183,   59,   82,  183,  117,  119,
+      183,  144,  148,  183,  154,    0,    0,    0,   36,  116,
+      124,  183,    0,    0,  169,  151,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,  170,    0,    0,
+      180,    0
+
     } ;
 
-static yyconst YY_CHAR yy_ec[256] =
+static const YY_CHAR yy_ec[256] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -542,7 +695,7 @@ static yyconst YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static yyconst YY_CHAR yy_meta[77] =
+static const YY_CHAR yy_meta[77] =
     {   0,
         1,    1,    2,    1,    3,    1,    4,    1,    1,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    1,
@@ -554,317 +707,169 @@ static yyconst YY_CHAR yy_meta[77] =
         5,    5,    5,    5,    5,    1
     } ;
 
-static yyconst flex_uint16_t yy_base[1375] =
+static const flex_int16_t yy_base[699] =
     {   0,
-        0,    0,  852,  842,   76,    0,  842, 8955,  151,  153,
-      786,    0, 8955, 8955,  149,  148,  160,  159,  778,  775,
-      156,  156,  165,  210,  202,  255,  151,  163,  265,  152,
-      171,  215,  218,  244,  295,  257,    0,  309,  349,  392,
-      163,  279,  226,  180,  676,    0,  741,    0,  237,  251,
-      696,  702,    0,    0,  243,  378,  451,  237,  682,  680,
-      470,  546,  600,  652,  700,  752,  384,  458,  795,  466,
-      532,  533,  534,  846,  895,  944,  547,  602,  990, 1042,
-      307,  650,  587,  651,  596,  301, 8955,  666, 8955,  636,
-     1107, 1117, 1128, 8955, 8955, 8955, 8955,    0,  218,  243,
-
-      300,  328,  250,  305,  379,  315,  319,    0,  376,  354,
-      694,  389,  345,  440,  710,  387,  388,  436,  439,  476,
-      463,  763,  460,  465,  480,  542,  481,  501,  521,  535,
-      591,  539,  546,    0,  584,  581,  627,  592,  607,  637,
-      657,  658,  717,  646,  658,  686,  681,  734,  705,  720,
-      717,    0,  751,  739,  757,  745,  764,  766,  755,  810,
-      769,  792,  770,  810,  811,  808,  817,  803,  822,  823,
-      842,  827,  820,  842,  871,  861,  858,  862,  866,  897,
-      872,  859,  879, 8955,    0, 8955,    0,  396,    0,  631,
-        0,  614, 1138, 1148, 1159,    0,    0,    0,    0,  942,
-
-      945, 1029,  990, 1156, 1034, 1155, 1202,  934, 1030, 1168,
-     1199, 1218, 1258, 1251, 1270, 1285, 1337, 1334, 1345, 1372,
-     1272, 1422, 1391, 1471, 1399, 1443, 1397, 1481, 1483, 1492,
-     1519, 1531, 1535, 1546, 1577, 1576, 1594, 1624, 1673, 1623,
-     1629, 1648, 1673, 1721, 1773, 1677, 1719, 1765, 1774, 1814,
-     1817, 1838, 1861, 1830, 1874, 1897, 1712, 1909, 1941, 1730,
-     1916, 1993, 1946, 1972, 1990, 2042, 2015, 2033, 2059, 2081,
-     2093, 2095, 2127, 2123, 2145, 2147, 2183, 2230, 2191, 2177,
-     2222, 2239, 2265, 2274, 2287,    0, 8955,  601, 2352,    0,
-      882,    0,  903,  900,    0,  933,    0,  940,  954,  941,
-
-      960,  988, 1001, 1156, 1038, 1038, 1050, 1044, 1137, 1162,
-     1145, 1147, 1166, 1153, 1166, 1203, 1216, 1260, 1221, 1220,
-     1207, 1226, 1215, 1229, 1247,    0, 1280, 1309, 1317, 1309,
-     1321, 1317, 1317, 1339, 1344, 1356, 1369, 1376, 1378, 1390,
-     1379, 1412, 1422, 1423, 1426, 1437, 1436, 1449, 1451, 1480,
-     1537, 1469, 1488,    0, 1490, 1516, 1530, 1537, 1593, 1538,
-     1543, 1532, 1555, 1557,    0, 1592, 1602, 1606, 1613, 1638,
-     1640, 1630, 1682, 1672, 1753, 1727, 1734, 1739, 1770, 1779,
-     1761, 1782, 1779, 1776, 1795, 1790, 1838,    0, 1827, 1824,
-     1867, 1880, 1875, 1876, 1887, 1888, 1886, 1918, 1932,    0,
-
-     1933, 1974, 1934, 1993, 1948, 1999, 1987, 1998, 2046, 2027,
-     2032, 2064, 2045, 2074,    0,  600, 2362, 2355, 2356, 2357,
-     2358, 2281, 2392, 2400, 2401, 2412, 2440, 2448, 2453, 2455,
-     2469, 2518, 2494, 2519, 2532, 2568, 2544, 2580, 2578, 2609,
-     2621, 2623, 2637, 2662, 2680, 2677, 2712, 2721, 2730, 2756,
-     2771, 2769, 2774, 2810, 2819, 2824, 2854, 2826, 2829, 2869,
-     2880, 2880, 2902, 2921, 2934, 2943, 2968, 2979, 2992, 3015,
-     3017, 3032, 3058, 3066, 3080, 3092, 3104, 3106, 3118, 3130,
-     3145, 3149, 3173, 3174, 3193, 3218, 3270, 3196, 3232, 3267,
-     3231, 3292, 3295, 3320, 3327, 3341, 3355, 3366, 3380, 3395,
-
-     3447, 3395, 3497, 3430, 3473, 3414, 3493, 3532, 3541, 3544,
-     3551, 3575, 3576, 3595, 3598, 3600, 3630, 3644, 3649, 3605,
-     3659, 3683, 3697, 3701, 3737, 3741, 3749, 3754, 3781, 3797,
-     3798, 3830, 3844, 3856, 3844, 3885, 3888, 3891, 3926, 3935,
-     3944, 3970,  582, 2085, 2089, 2090, 2091, 2104, 2130, 2148,
-     2147, 2171,    0, 2192,    0,    0, 2193, 2197, 2215, 2208,
-        0, 2218, 2230, 2245, 2238,    0, 2248, 2273, 2277, 2283,
-     2303, 2290, 2306, 2302, 2356,    0,    0, 2365, 2359, 2360,
-     2357, 2403, 2428, 2431, 2429,    0, 2440, 2455, 2466, 2476,
-        0,    0, 2485, 2475,    0, 2511,    0, 2510, 2526, 2517,
-
-     2555, 2564, 2569, 2600,    0, 2586,    0,    0,    0, 2591,
-        0, 2601, 2626,    0, 2634, 2660, 2633, 2625, 2663,    0,
-     2681, 2686, 2675, 2678,    0, 2688, 2716,    0, 2728, 2739,
-     2740, 2738,    0, 2757, 2777, 2773, 2775, 2798,    0, 2791,
-     2795, 2834, 2868,    0,    0, 2862, 2877, 2882, 2892, 2883,
-        0,    0, 2883, 2904,    0, 2925, 2915, 2923, 2921, 2945,
-     2931, 2950, 2956, 2982,    0, 2973,    0, 2992,    0, 2982,
-      544, 3979, 3988, 4017, 4026, 4039, 4026, 4051, 4076, 4077,
-     4089, 4111, 4119, 4133, 4145, 4159, 4171, 4197, 4185, 4199,
-     4206, 4223, 4249, 4235, 4249, 4270, 4293, 4306, 4336, 4344,
-
-     4362, 4261, 4385, 4386, 4404, 4430, 4444, 4458, 4472, 4486,
-     4502, 4528, 4519, 4545, 4553, 4567, 4579, 4597, 4605, 4619,
-     4631, 4649, 4657, 4656, 4684, 4692, 4685, 4727, 4700, 4736,
-     4752, 4797, 4766, 4794, 4808, 4827, 4838, 4841, 4857, 4871,
-     4896, 4904, 4909, 4911, 4925, 4951, 4963, 4968, 4976, 4998,
-     5017, 5036, 5051, 5077, 5080, 5089, 5115, 5133, 5134, 5159,
-     5168, 5187, 5209, 5212, 5238, 5250, 5241, 5263, 4970, 5294,
-     5289, 5302, 5307, 5024, 5321, 5343, 5346, 5351, 5365, 5387,
-     5392, 5396, 5422, 5441, 5438, 5464, 5483, 5497, 5494, 5525,
-     5449, 5542, 5537, 5576, 5577, 5578, 5590, 5592,  543,    0,
-
-        0, 3009,    0, 3040,    0, 3046, 3035, 3059, 3061, 3090,
-     3085, 3094, 3110, 3142,    0, 3135, 3144, 3152, 3176, 3195,
-     3210,    0, 3208, 3211, 3239, 3254, 3253, 3264, 3267, 3271,
-     3286, 3302, 3313,    0,    0, 3300, 3323, 3316, 3337, 3342,
-     3363,    0,    0, 3364,    0,    0, 3370, 3398, 3442, 3411,
-        0,    0, 3420,    0,    0, 3434, 3438, 3458, 3443, 3460,
-     3454,    0,    0, 3472, 3458, 3489, 3478, 3485,    0, 3510,
-     3512, 3519,    0, 3530, 3550, 3567, 3575,    0, 3597, 3607,
-     3640, 3624, 3639, 3640, 3660, 3662, 3663,    0, 3694, 3704,
-     3707,    0, 3695, 3717, 3718,    0,    0,  536, 5622, 5625,
-
-     5633, 5636, 5676, 5684, 5685, 5710, 5738, 5729, 5764, 5763,
-     5764, 5792, 5814, 5816, 5808, 5828, 5846, 5864, 5862, 5882,
-     5890, 5912, 5920, 5919, 5944, 5946, 5968, 5970, 5994, 5999,
-     6019, 6022, 6024, 6048, 6060, 6063, 6089, 6067, 6105, 6116,
-     6108, 6146, 6149, 6152, 6160, 6190, 6203, 6201, 6232, 6245,
-     6246, 6276, 6287, 6290, 6315, 6320, 6334, 6358, 6376, 6367,
-     6407, 6411, 6419, 6434, 6459, 6460, 6488, 6489, 6513, 6514,
-     6527, 6539, 6542, 6567, 6581, 6568, 6593, 6596, 6622, 6635,
-     6627, 6667, 6670, 6691, 6719, 6683, 6727, 6739, 6752, 6744,
-     6780, 6778, 6799, 6825, 6822, 6843,  526, 3718,    0, 3748,
-
-        0, 3753, 3765, 3751, 3753,    0, 3765,    0, 3790, 3801,
-     3812, 3805, 3799,    0, 3822,    0, 3822,    0, 3819,    0,
-        0, 3862,    0, 3875, 3873, 3892, 3903,    0,    0,    0,
-        0,    0,    0, 3903, 3930, 3942,    0,    0, 3932,    0,
-     3948,    0, 3968,    0, 3972, 3992, 4001, 4031, 4018, 4032,
-        0, 4044, 4049, 4061, 4077,    0, 4091,    0, 4094,    0,
-     4107, 4109, 4115, 4110, 4136,    0,    0,    0,    0, 4134,
-     4144,  525, 6860, 6865, 6867, 6881, 6897, 6910, 6919, 6935,
-     6944, 6953, 6977, 6986, 6995, 7026, 7030, 7039, 7070, 7081,
-     7084, 7112, 7125, 7126, 7156, 7167, 7169, 7178, 7203, 7212,
-
-     7214, 7221, 7256, 7257, 7265, 7298, 7301, 7307, 7342, 7350,
-     7369, 7364, 7394, 7396, 7410, 7419, 7438, 7452, 7471, 7480,
-     7500, 7509, 7524, 7538, 7516, 7559, 7565, 7589, 7603, 7612,
-     7631, 7645, 7654, 7673, 7687, 7701, 7720, 7743, 7744, 7774,
-     7785, 7788, 7804, 7818, 7834, 7837,  529,    0,    0,    0,
-        0, 4157,    0,    0,  436, 4161, 4177,    0,    0, 4177,
-     4196, 4219,    0,    0,    0, 4258,    0,    0, 4276, 4280,
-        0,    0, 4284, 4299, 4293, 4301,    0,    0, 4319, 4304,
-     4316,    0,    0, 4320,    0, 4325, 4333, 4341, 4361, 4364,
-        0,    0,  527, 7848, 7872, 7878, 7881, 7901, 7916, 7925,
-
-     7955, 7940, 7970, 7969, 7984, 7999, 8008, 8038, 8033, 8052,
-     8074, 8013, 8054, 8084, 8108, 8095, 8131, 8139, 8150, 8151,
-     8156, 8185, 8188, 8199, 8218, 8232, 8251, 8262, 8281, 8292,
-     8295, 8311, 8335, 8341, 8358, 8380, 8388, 8393,  526, 4361,
-     4434,    0, 4360,    0,    0,    0, 4377, 4374,    0,    0,
-     4384, 4398, 4412, 4415,    0,    0,    0, 4405, 4419, 4429,
-        0, 4436,  524, 8418, 4781, 8406, 8432, 8444, 8446, 8468,
-     8480, 8498, 8506, 8524, 8546, 8551, 8555, 8568, 8590, 8598,
-     8603, 8612, 8642, 8644, 8647, 8656,  514,  438, 4433, 4446,
-        0,    0, 4434,    0,    0, 4469,    0,    0, 4477,    0,
-
-      506, 8710, 4493, 8688, 8696, 8697, 8731, 8739, 8742, 8745,
-     8775, 8783, 8795, 8800,  470, 4558, 4499,    0,    0,    0,
-     4522,  468, 4698, 4536, 8803, 8808, 8844, 8842,  465, 4563,
-     8955,    0,  418, 4565,    0, 8851,  418, 4572,  390, 4578,
-      388, 4583,  386, 4591,  347, 4609,  343, 4617,  338, 4628,
-      335, 4636,  334, 4653,  332, 4679,  303, 8955,  293,    0,
-      299,  286,  248,  243, 8955,    0, 8955, 8924, 8929,  201,
-     8934, 8939, 8944, 8949
+        0,    0,  577,  528,  526,  426,  378, 1472,   75,   77,
+      356,    0, 1472, 1472,   73,   72,   84,   83,  355,  344,
+       80,   80,   89,  134,  126,  179,   75,   87,  189,   76,
+       95,  139,  142,  168,  219,  181,    0,  233,  273,  316,
+       87,  203,  150,  104,  288,    0,  355,    0, 1472,  161,
+     1472,  355, 1472,  345,  302,  374,  385, 1472, 1472, 1472,
+     1472,    0,  142,  140,  224,  242,  174,  202,  294,  216,
+      230,    0,  290,  246,  306,  318,  235,  363,  383,  237,
+      237,  262,  260,  387,  307,  389,  300,  314,  315,  375,
+      317,  373,  381,  382,  381,  385,  380,    0,  395,  390,
+
+      430,  394,  428,  413,  433,  429,  440,  427,  432,  433,
+      428,  432,  439,  452,  450,    0,  453,  438,  454,  442,
+      461,  483,  449,  490,  486,  482,  487,  494,  497,  490,
+      499,  483,  501,  501,  521,  503,  497,  495,  539,  540,
+      512,  508,  535,  541,  543,  530,  550, 1472,    0, 1472,
+        0, 1472,  317,  600,    0,  549,    0,  550,  544,    0,
+      556,    0,  543,  562,  576,  591,  589,  590,  600,  586,
+      585,  594,  588,  584,  609,  592,  594,  608,  595,  603,
+      607,  616,  640,  616,  616,  602,  621,  608,  620,  638,
+        0,  653,  650,  653,  638,  646,  641,  642,  657,  662,
+
+      652,  660,  653,  655,  666,  648,  662,  662,  654,  657,
+      665,  662,  673,  674,  694,  702,  687,  695,    0,  690,
+      706,  703,  709,  713,  708,  709,  697,  699,  699,    0,
+      720,  710,  705,  706,  722,  723,  711,  752,  716,  755,
+      719,  726,  749,  757,  762,  744,  757,  754,  748,  763,
+      754,  765,    0,  755,  751,  759,  764,  757,  758,  767,
+      765,  762,  769,  779,    0,  772,  802,  772,  800,  797,
+      817,  805,  799,  818,  799,  803,  810,  817,  808,  296,
+      809,  811,  805,  806,  814,  819,  830,  822,  832,    0,
+      837,    0,    0,  839,  828,  852,  848,    0,  849,  851,
+
+      866,  852,    0,  861,  861,  854,  856,  876,  860,  876,
+      871,  869,    0,    0,  878,  867,  868,  864,  866,  886,
+      888,  885,    0,  871,  877,  885,  894,    0,    0,  914,
+      904,    0,  909,    0,  905,  920,  908,  903,  910,  911,
+      923,    0,  919,    0,    0,    0,  912,    0,  921,  929,
+        0,  930,  917,  930,  921,  931,    0,  940,  939,  927,
+      928,    0,  935,  940,    0,  964,  973,  976,  973,    0,
+      961,  967,  963,  962,  981,    0,  971,  971,  983,  982,
+        0,    0,  976,  984,  981,  986,  977,    0,    0,  974,
+      975,    0,  992,  976,  984,  978,  999,  982,  996, 1018,
+
+     1020,    0, 1010,    0, 1027,    0, 1014,  275,    0,    0,
+     1008,    0, 1030,    0, 1031, 1017, 1037, 1035, 1037, 1027,
+     1022, 1028, 1039,    0, 1031, 1037, 1032, 1047, 1037, 1046,
+        0, 1043, 1033, 1040, 1051, 1048, 1072, 1062, 1065, 1067,
+     1078, 1085,    0,    0, 1066, 1083, 1071, 1080, 1074, 1087,
+        0,    0, 1075,    0,    0, 1076, 1092, 1079, 1087,    0,
+        0, 1096,    0,    0, 1097, 1084, 1104, 1086, 1099, 1088,
+        0,    0, 1105, 1091, 1127, 1118, 1121,    0, 1135, 1136,
+     1133,    0, 1142, 1143, 1141, 1126,    0, 1138, 1144, 1148,
+     1131, 1133, 1132, 1152, 1153, 1141,    0, 1151, 1153, 1154,
+
+        0, 1141, 1160, 1161,    0,    0,  267, 1159,    0, 1151,
+        0, 1171, 1185, 1173, 1175,    0, 1183,    0, 1176, 1184,
+     1195, 1187, 1180,    0, 1199,    0, 1199,    0, 1189,    0,
+        0, 1199,    0, 1191, 1186, 1198, 1194,    0,    0,    0,
+        0,    0,    0, 1191, 1205, 1210,    0,    0, 1194,    0,
+     1202,    0, 1214,    0, 1196, 1209, 1210, 1234, 1219, 1233,
+        0, 1245, 1246, 1231, 1232,    0, 1238,    0, 1241,    0,
+     1253, 1254, 1253, 1237, 1254,    0,    0,    0,    0, 1241,
+     1248,  269,    0,    0,    0,    0, 1256,    0,    0,  175,
+     1257, 1262,    0,    0, 1259, 1245, 1260,    0,    0,    0,
+
+     1254,    0,    0, 1266, 1258,    0,    0, 1254, 1268, 1278,
+     1284,    0,    0, 1298, 1282, 1292,    0,    0, 1284,    0,
+     1287, 1293, 1287, 1303, 1304,    0,    0,  269, 1292, 1331,
+        0, 1293,    0,    0,    0, 1307, 1295,    0,    0, 1298,
+     1303, 1311, 1314,    0,    0,    0, 1296, 1307, 1315,    0,
+     1322,  263,  183, 1312, 1333,    0,    0, 1320,    0,    0,
+     1328,    0,    0, 1337,    0,  257, 1375, 1334,    0,    0,
+        0, 1344,  253, 1358, 1472,    0,  221, 1342,  221, 1336,
+      216, 1353,  211, 1349,  205, 1357,  172, 1472,  173,  157,
+     1472, 1472, 1446, 1451, 1456,  125, 1461, 1466
+
     } ;
 
-static yyconst flex_int16_t yy_def[1375] =
+static const flex_int16_t yy_def[699] =
     {   0,
-     1367,    1, 1368, 1368, 1367,    5, 1367, 1367, 1367, 1367,
-     1367, 1369, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1367, 1371, 1367, 1372, 1372, 1367,
-     1372, 1373, 1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372,
-     1374, 1374,   62,   62,   62,   63,   65,   62,   65,   62,
-       62,   62,   62,   63,   63,   63,   62,   62,   62,   62,
-       65,   62,   62,   62, 1372, 1367, 1367, 1369, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1367, 1371, 1367, 1372, 1372, 1372, 1373,
-     1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372, 1372,   62,
-
-       62,   62,   65,   65,   65,   65,   65,   65,   62,   62,
-       65,   65,   65,   62,   62,   62,   65,   65,   65,   62,
-       65,   65,   65,   62,   65,   65,   62,   65,   62,   65,
-       62,   62,   65,   65,   65,   65,   62,   62,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       62,   62,   65,   62,   62,   62,   63,   62,   62,   62,
-       65,   62,   62,   62,   62, 1372, 1367, 1367, 1367, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1372, 1372, 1372,   62,   62,   62,
-       62,   65,   65,   65,   65,   62,   62,   62,   62,   65,
-       65,   62,   62,   62,   62,   62,   62,   62,   65,   65,
-       62,   65,   65,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   65,   65,   65,
-       65,   62,   62,   65,   62,   62,   65,   65,   65,   65,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   65,   65,   65,   62,   62,   62,
-
-       62,   65,   65,   65,   65,   65,   62,   62,   62,   62,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65, 1367, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1372,   65,   65,   62,   62,   62,   65,   62,   65,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-
-       65,   62,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   65,   65,   65,   62,   62,   65,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   65,   65,   65,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   65,   65,
-       62,   62,   62,   65,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   62,   62,   62,   62,   65, 1367, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1372,   65,   65,
-
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   65,
-       65,   62,   62,   62,   65,   62,   62,   62,   65,   62,
-       62,   62,   62,   65,   62,   62,   62,   62,   62,   65,
-       62,   62,   62,   62,   62,   62,   62,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   65,   65,   65,
-       65,   65,   65,   65,   62,   65,   65,   65,   65,   65,
-       65,   65,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       65,   65,   65,   65,   65,   65,   65,   62,   62,   62,
-       62,   65,   65,   65,   65,   65, 1367, 1370, 1370, 1370,
-
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1372,   62,   62,   65,   65,   65,   62,   62,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   62,   62,   65,   65,
-
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   62,
-       62,   62,   62,   65,   65,   65,   65,   65,   65,   65,
-       62,   62,   62,   62,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   65,   65, 1367, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1372,   65,   65,   65,   65,   62,   62,   62,
-
-       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   62,
-       62,   65,   65,   65,   65,   65,   65,   65,   65,   65,
-       65,   65,   65,   65,   62,   62,   62,   62, 1367, 1370,
-     1367, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-     1370, 1370, 1372,   62, 1372,   62,   62,   62,   62,   62,
-       62,   62,   62,   62,   62,   65,   65,   62,   62,   62,
-       62,   62,   62,   62,   62,   62, 1367, 1370, 1367, 1370,
-     1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370, 1370,
-
-     1372,   62, 1372,   62,   62,   62,   65,   65,   65,   65,
-       65,   65,   62,   62, 1367, 1367, 1367, 1370, 1370, 1370,
-     1370, 1372, 1372, 1372,   62,   62,   62,   65, 1367, 1367,
-     1367, 1370, 1372, 1372, 1372,   65, 1367, 1367, 1372, 1372,
-     1367, 1367, 1372, 1372, 1367, 1367, 1372, 1372, 1367, 1367,
-     1372, 1372, 1367, 1367, 1372, 1372, 1367, 1367, 1372, 1372,
-     1367, 1372, 1367, 1372, 1367, 1372,    0, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367
+      692,    1,  693,  693,  694,  694,  692,  692,  692,  692,
+      692,  695,  692,  692,  692,  692,  692,  692,  692,  692,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  692,  697,  692,  698,  692,  692,
+      692,  695,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  692,  697,  692,
+      698,  692,  692,  692,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  692,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  692,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  692,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  692,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  692,  696,  692,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  692,  696,  692,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  692,  692,  692,  696,  696,
+      696,  696,  692,  692,  692,  696,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,    0,  692,  692,  692,  692,  692,  692
+
     } ;
 
-static yyconst flex_uint16_t yy_nxt[9032] =
+static const flex_int16_t yy_nxt[1549] =
     {   0,
         8,    9,   10,   11,   12,   13,   14,   15,   16,   17,
        17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
@@ -873,996 +878,172 @@ static yyconst flex_uint16_t yy_nxt[9032] =
        39,   40,   41,   42,   43,   37,   44,   37,    8,   21,
        22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
        32,   33,   34,   35,   36,   37,   38,   39,   40,   41,
-       42,   43,   37,   44,   37,   45,   48,   49,   50,   51,
-       52,   53,   54,   55,   56,   57,   57,   57,   57,   57,
-       57,   57,   57,   57,   57,   58,   59,   60,   61,   62,
-
-       63,   64,   65,   66,   67,   68,   69,   70,   71,   72,
-       73,   74,   75,   76,   77,   78,   79,   80,   81,   82,
-       83,   77,   84,   77,   48,   61,   62,   63,   64,   65,
-       66,   67,   68,   69,   70,   71,   72,   73,   74,   75,
-       76,   77,   78,   79,   80,   81,   82,   83,   77,   84,
-       77,   85,   86,   86,   86,   86,   89,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,   91,   90,   92,   93,
-       93,   93,   93,   93,   93,   93,   93,   93,   93,   94,
-       95,   99,  105,  100,  129,  131,  106,  109,  139,  101,
-      130,  102,  107,  132,  110,  103,  104,  140,  176,  133,
-
-      177,  111,  108,  178,  112,   98,  183,  113,   99,  105,
-      100,  129,  131,  106,  109,  139,  101,  130,  102,  107,
-      132,  110,  103,  104,  140,  176,  133,  177,  111,  108,
-      178,  112,  114,  183,  113,  119,  115,  120,  188,   86,
-      116,  141,  121,  290,  144,  142,  117,  122,  145,  118,
-      191,  143,   86,   86,  146,  181,  182,  196,  197,  114,
-     1366,  192,  119,  115,  120, 1365,  147,  116,  141,  121,
-      290,  144,  142,  117,  122,  145,  118,  123,  143,  156,
-      148,  146,  181,  182,  291,  124,  149,  150,  125,  296,
-      157,  126,  134,  147,  127, 1364,  158,  128,  135,  136,
-
-      137,  179,   86,   86,  123,  138,  156,  148, 1363,  180,
-     1362,  291,  124,  149,  150,  125,  296,  157,  126,  134,
-     1361,  127,  151,  158,  128,  135,  136,  137,  179,  297,
-      152,  159,  138,  292,  153,  160,  180,  154,  155,  161,
-      200,  293,  278,  301,  279,  162, 1359,  280, 1357,  151,
-      294, 1355,  200,  295, 1353,  302,  297,  152,  159, 1351,
-      292,  153,  160, 1349,  154,  155,  161,  200,  293,  278,
-      301,  279,  162,  163,  280,  164,  305,  294,  165,  200,
-      295,  166,  302,  167,  312,  168,  169,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  188,   86, 1347,
-
-      163, 1345,  164,  305, 1343,  165,  298,  299,  166,  303,
-      167,  312,  168,  169,  170,  310,  304,  231,  171,  200,
-      300,  172,  173,  232,  200,  311,  320,  321,  174,  200,
-      322,  175, 1341,  298,  299, 1339,  303, 1241, 1241, 1316,
-     1316,  170,  310,  304,  231,  171,  200,  300,  172,  173,
-      232,  200,  311,  320,  321,  174,  200,  322,  175,  194,
-      195,  195,  195,  195,  195,  195,  195,  195,  195,  195,
-      187,  187,  323,  187,  187,  187,  187,  187,  187,  324,
-      233,  313, 1337, 1333,  200, 1329,  314,  327,  234,  187,
-      187,  187,  200,  333,  235,  201,  200,  202,  334,  323,
-
-      325,  326,  241,  203,  200,  204,  324,  233,  313,  205,
-      206,  200,  200,  314,  327,  234,  335,  338, 1322,  200,
-      333,  235,  201,  200,  202,  334, 1315,  325,  326,  241,
-      203,  200,  204, 1301,  339, 1287,  205,  206, 1263,  200,
-     1239, 1193, 1147,  335,  338,  187,  187,  187, 1072,  187,
-      187,  187,  187,  187,  187,  997,  898,  340,  242,  243,
-      246,  339,  200,  244,  247,  187,  187,  187,  200,  245,
-      248,  341,  207,  200,  344,  336,  208,  200,  200,  200,
-      200,  337,  209,  200,  340,  242,  243,  246,  345,  200,
-      244,  247,  210,  200,  799,  200,  245,  248,  341,  207,
-
-      200,  344,  336,  208,  200,  200,  200,  200,  337,  209,
-      200,  671,  543,  200,  346,  345,  283,  284,  347,  210,
-      200,  187,  211,  200,  261,  416,  200,  352,  262,  212,
-      200,  342,  263,  200,  343,  415,  213,  353,  264,  214,
-      200,  346,  215,  283,  284,  347,  200,  288,  200,  211,
-      200,  261,  348,  200,  352,  262,  212,  200,  342,  263,
-      200,  343,  349,  213,  353,  264,  214,  350,  351,  215,
-      287,  286,  281,  200,  216,  200,  200,  285,  217,  348,
-      282,  200,  218,  354,  355,  361,  200,  200,  219,  349,
-      356,  220,  357,  362,  350,  351,  200,  200,  200,  281,
-
-      199,  216,  198,  200,  285,  217,  187,  282,  200,  218,
-      354,  355,  361,  200,  200,  219,  189,  356,  220,  357,
-      362,  363,  364,  200,  200,  200,  200,  306,  307,  308,
-      200,  309,  315,  221,  316,  222,  200,  317,  367,  358,
-      223,  359,  368,  318,  369,  224,  200,  186,  363,  364,
-      319,  184,  360,  200,  306,  307,  308,  200,  309,  315,
-      221,  316,  222,  200,  317,  367,  358,  223,  359,  368,
-      318,  369,  224,  200,  225,  365,  370,  319,  366,  360,
-      371,  200,  226,  372,  373,  227,  374,  328,  228,  329,
-      377,  229,  375,  330,  230,   97,  376,  382,   96,  385,
-
-      331,  225,  365,  370,  332,  366,   87,  371,  200,  226,
-      372,  373,  227,  374,  328,  228,  329,  377,  229,  375,
-      330,  230,  236,  376,  382,  383,  385,  331,  237,  238,
-      239,  332,  378,  389,  386,  240,  384,  379,  391,  392,
-      200, 1367,  393,  387,  394,  380,  395,  390,   47,  236,
-      381,  388,  383,  398,  399,  237,  238,  239,   47,  378,
-      389,  386,  240,  384,  379,  391,  392,  200,  249,  393,
-      387,  394,  380,  395,  390,  200,  396,  381,  388,  400,
-      398,  399,  250,  406,  403,  200, 1367,  397,  251,  252,
-     1367,  404,  407,  401,  405,  249, 1367, 1367,  412,  408,
-
-      413,  414,  200,  396, 1367,  409,  400, 1367,  544,  250,
-      406,  403,  200,  402,  397,  251,  252,  200,  404,  407,
-      401,  405,  253,  410,  200,  412,  408,  413,  414,  545,
-      254,  200,  409,  546,  255,  544,  411,  256,  257, 1367,
-      402, 1367, 1367, 1367,  200, 1367, 1367, 1367, 1367,  253,
-      410,  200, 1367, 1367, 1367,  547,  545,  254,  200, 1367,
-      546,  255,  429,  411,  256,  257,  258,  200,  200,  200,
-      418,  200,  200,  200,  200,  200,  548,  259,  200,  200,
-      200,  200,  547,  260,  549,  550,  200, 1367,  200,  429,
-      551,  200, 1367,  258,  200,  200,  200,  418,  200,  200,
-
-      200,  200,  200,  548,  259,  200,  200,  200,  200, 1367,
-      260,  549,  550,  200,  265,  200,  266,  551,  200,  267,
-      200,  552,  268,  420,  269,  200,  270,  271, 1367, 1367,
-      200,  421, 1367, 1367,  553,  200,  200, 1367, 1367, 1367,
-     1367,  265, 1367,  266, 1367, 1367,  267,  200,  552,  268,
-      420,  269,  200,  270,  271,  200,  200,  200,  421,  200,
-      200,  553,  200,  200,  272,  200,  430,  200,  273,  200,
-      419,  274,  275,  424,  200,  200,  200,  557,  276,  200,
-      558,  277,  200,  200,  559,  560,  200,  200,  200, 1367,
-     1367,  272,  200,  430,  200,  273,  200,  419,  274,  275,
-
-      424,  200,  200,  200,  557,  276,  200,  558,  277, 1367,
-     1367,  559,  560, 1367, 1367,  200,   91,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,  289,  289,  289,  289,
-      289,  289,  289,  289,  289,  289,   92,   93,   93,   93,
-       93,   93,   93,   93,   93,   93,   93,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  417,  417,  417,
-      417,  417,  417,  417,  417,  417,  417,  194,  195,  195,
-      195,  195,  195,  195,  195,  195,  195,  195,  422,  425,
-      554,  423,  555,  561,  562,  563,  564, 1367,  200,  200,
-      200,  200,  565,  566,  200,  200,  200,  556,  200,  567,
-
-      200,  200, 1367, 1367,  200,  422,  425,  554,  423,  555,
-      561,  562,  563,  564,  200,  200,  200,  200,  200,  565,
-      566,  200,  200,  200,  556,  200,  567,  200,  200,  426,
-      427,  200,  431,  568,  200,  200, 1367,  200,  569,  432,
-      433,  200,  200,  428,  200,  572,  573,  200,  574,  575,
-     1367,  200,  576,  200, 1367,  577,  426,  427,  200,  431,
-      568,  200,  200,  200,  200,  569,  432,  433, 1367,  200,
-      428,  200,  572,  573,  200,  574,  575,  438,  200,  576,
-      200,  200,  577,  578, 1367,  200,  570,  439, 1367, 1367,
-      200,  434,  435,  436, 1367,  437,  200,  200,  200, 1367,
-
-      200,  571,  579,  200,  438,  200,  200,  200,  200,  440,
-      578,  200,  452,  570,  439,  200,  200,  200,  434,  435,
-      436,  200,  437,  200,  200,  200,  441,  200,  571,  579,
-      200,  442,  200,  200,  200,  580,  440, 1367,  200,  452,
-     1367,  581,  200,  200,  200, 1367, 1367, 1367,  200,  582,
-     1367, 1367, 1367,  441,  583, 1367,  584,  585,  442,  443,
-     1367,  444,  580, 1367,  445,  586,  587,  200,  581,  200,
-      446, 1367,  200,  448,  449, 1367,  582,  447,  200,  200,
-      200,  583,  200,  584,  585,  200,  443,  450,  444,  588,
-      200,  445,  586,  587,  200,  589,  200,  446,  200,  200,
-
-      448,  449,  200,  590,  447,  200,  200,  200,  451,  200,
-      591,  592,  200,  593,  450,  455,  588,  200,  200, 1367,
-     1367,  594,  589,  200,  200,  200,  200,  200, 1367,  200,
-      590,  200,  461,  463,  200,  451,  200,  591,  592,  200,
-      593,  595,  455,  200,  200,  200,  453,  454,  594, 1367,
-      200,  200,  596,  200,  200,  200, 1367,  200,  200,  461,
-      463,  200,  200,  200,  597,  598,  200,  200,  595,  599,
-      200,  200,  600,  453,  454,  601,  462,  602,  200,  596,
-     1367, 1367,  200,  200,  200, 1367, 1367, 1367,  200,  200,
-     1367,  597,  598, 1367,  200,  456,  599,  457, 1367,  600,
-
-     1367,  458,  601,  462,  602,  200,  603,  200,  459,  200,
-      200,  606,  460,  200,  464,  200,  200,  200, 1367,  466,
-      465,  200,  456,  607,  457,  467,  200,  200,  458,  200,
-     1367,  608,  200,  603,  200,  459,  200,  200,  606,  460,
-      200,  464,  609,  200,  200,  200,  466,  465,  200,  200,
-      607, 1367,  467,  200,  200,  468,  200,  200,  608,  200,
-      610,  200,  611,  604,  200,  200,  614,  469,  200,  609,
-      200,  615,  200,  605,  616,  470,  200,  200,  471,  200,
-      200,  472,  468, 1367,  200, 1367,  200,  610,  200,  611,
-      604,  200,  200,  614,  469,  200,  617,  200,  615,  618,
-
-      605,  616,  470, 1367,  200,  471,  200,  200,  472,  200,
-      200,  200,  200,  200,  619,  612,  200,  200,  200,  473,
-      200,  200,  200,  617,  474,  613,  618, 1367, 1367, 1367,
-      200, 1367, 1367, 1367, 1367,  620,  200,  200,  200,  200,
-      200,  619,  612,  200,  200,  621,  473,  200,  200,  200,
-      200,  474,  613,  622,  200,  200,  200,  200,  480,  481,
-      200,  475,  620,  200,  623,  200,  624,  200,  200,  625,
-      200, 1367,  621, 1367,  200,  200, 1367,  200,  200, 1367,
-      622,  200,  200,  200,  200,  480,  481,  200,  475, 1367,
-      200,  623,  200,  624,  482,  200,  625,  200,  476,  200,
-
-      483,  200,  200,  200,  626,  200,  200,  628,  477,  200,
-      200,  200,  200,  478,  479, 1367,  489,  200,  200,  200,
-     1367,  482,  200,  627, 1367,  476,  200,  483, 1367, 1367,
-      200,  626, 1367,  200,  628,  477,  200,  200,  500,  200,
-      478,  479,  200,  489,  200,  200,  200,  200,  200,  200,
-      627,  200,  200,  484,  490,  485,  503,  200,  200,  200,
-      504,  631,  632, 1367,  200,  500,  200,  200, 1367,  200,
-     1367, 1367,  633, 1367,  200,  200,  200,  629,  200,  200,
-      484,  490,  485,  503,  200,  200,  200,  504,  631,  632,
-      630,  200, 1367,  200,  200,  486,  634,  487,  200,  633,
-
-      491,  635,  636,  200,  629,  200,  200,  200,  488,  200,
-      200,  637,  638,  200,  200,  492,  639,  630,  200,  200,
-     1367,  640,  486,  634,  487,  200,  641,  491,  635,  636,
-     1367, 1367,  200,  200,  200,  488,  200,  200,  637,  638,
-      200,  200,  492,  639, 1367,  200,  200,  200,  640,  200,
-      495, 1367,  200,  641,  200,  493, 1367,  200,  494,  200,
-      496, 1367,  200,  200,  642,  200,  643, 1367,  644, 1367,
-      200,  200, 1367,  200,  200,  200,  200,  495,  200,  200,
-     1367,  200,  493,  200,  200,  494,  200,  496,  497,  200,
-      200,  642,  200,  643,  200,  644,  200,  200,  200,  498,
-
-      200,  200,  200, 1367,  645,  200,  200,  200, 1367,  200,
-      200, 1367, 1367,  646,  200,  497,  647,  648, 1367,  200,
-      649,  200, 1367,  200, 1367,  650,  498,  651,  200, 1367,
-      200,  645,  200,  200,  200,  200,  200,  200,  499,  200,
-      646,  200,  200,  647,  648,  200,  200,  649,  501,  200,
-     1367,  505,  650,  652,  651,  200,  200,  200,  653,  200,
-     1367,  200,  200,  502,  200,  499,  200,  200,  654,  200,
-      657,  200,  200, 1367,  510,  501,  200,  200,  505,  200,
-      652,  200,  200,  200,  660,  653,  200,  200,  200, 1367,
-      502,  200, 1367, 1367,  200,  654, 1367,  657,  200, 1367,
-
-      655,  510, 1367, 1367,  200,  511,  200,  200,  200,  656,
-     1367,  660,  200,  200,  200,  506,  512,  200,  200,  513,
-      507,  661,  662,  200, 1367,  200,  200,  655,  508,  658,
-      200,  659,  511,  509,  200,  200,  656,  517,  200,  200,
-      663,  200,  506,  512,  200,  200,  513,  507,  661,  662,
-      200,  518,  200,  200, 1367,  508,  658,  200,  659,  200,
-      509,  200,  200,  519,  517,  200,  514,  663,  200,  200,
-      664,  665,  200,  666,  669,  515, 1367,  200,  518,  200,
-     1367,  520,  200,  516, 1367,  200,  200,  200,  200,  200,
-      519, 1367, 1367,  514, 1367,  200,  200,  664,  665,  667,
-
-      666,  669,  515,  668,  200,  200,  200,  200,  520,  200,
-      516,  200,  200,  670,  200,  522,  200,  200,  523,  200,
-      521,  200,  200,  200,  800,  200,  667,  200,  801,  200,
-      668,  200,  200, 1367,  200, 1367,  802,  803,  200,  200,
-      670,  200,  522,  804,  200,  523,  200,  521,  200,  526,
-      200,  800,  200,  200,  200,  801,  200, 1367,  200,  200,
-      200,  524,  200,  802,  803,  805,  200,  200,  200,  200,
-      804,  200,  525,  200,  806,  200,  526,  200, 1367,  527,
-      200,  200,  807,  200,  528, 1367,  200,  200,  524,  200,
-     1367,  200,  805,  200,  200, 1367,  200,  808,  200,  525,
-
-      200,  806,  200,  200,  200,  529,  527,  535,  200,  807,
-      200,  528,  200,  200,  809,  810,  534,  200,  200,  200,
-      200,  200,  200,  200,  808,  530, 1367,  200, 1367, 1367,
-      200,  811,  529, 1367,  535, 1367, 1367,  200, 1367,  200,
-      200,  809,  810,  534,  200,  812,  200,  813,  200,  200,
-      200, 1367,  530,  531,  200,  536,  200,  200,  811,  814,
-      532,  537,  200,  533,  200,  538,  200,  200, 1367,  200,
-      815,  816,  812, 1367,  813,  200,  200, 1367,  539,  817,
-      531,  818,  536,  200,  200,  200,  814,  532,  537,  200,
-      533,  540,  538,  200,  200,  200,  200,  815,  816, 1367,
-
-      200,  200,  200,  200,  200,  539,  817,  819,  818,  542,
-      200,  200,  200,  200,  674,  541,  200,  200,  540,  820,
-      200,  200,  200,  200,  821,  822,  200,  200,  200,  823,
-      824,  200,  825,  200,  819, 1367,  542,  200,  200, 1367,
-      200,  674,  541,  200,  200, 1367,  820,  200,  200, 1367,
-      200,  821,  822,  200, 1367, 1367,  823,  824, 1367,  825,
-      200,  289,  289,  289,  289,  289,  289,  289,  289,  289,
-      289,  417,  417,  417,  417,  417,  417,  417,  417,  417,
-      417,  200,  672,  200,  673,  200,  200,  200,  200,  826,
-      827,  200,  200,  200,  200, 1367,  828,  829, 1367,  830,
-
-     1367,  200,  200,  200,  200, 1367, 1367, 1367,  200,  672,
-      200,  673,  200,  200,  200,  200,  826,  827,  200,  200,
-      200,  200,  675,  828,  829,  200,  830,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200,  200, 1367,  831,  200,  200, 1367,  676,  675,
-      832, 1367,  200,  833,  200,  834, 1367, 1367,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      677,  831,  200,  200,  200,  676,  200,  832,  200,  200,
-      833,  835,  834,  679,  200,  200,  200, 1367,  680,  200,
-      200,  836,  678,  200,  200,  200,  837,  677,  838,  200,
-
-      200,  200,  681,  200,  200,  200,  200,  839,  835,  200,
-      679,  200,  840,  200,  200,  680,  200,  200,  836,  678,
-      200,  200,  200,  837,  200,  838,  200,  200, 1367,  681,
-      200,  200, 1367,  685,  839, 1367,  200, 1367, 1367,  840,
-      200,  200,  682, 1367,  683,  200,  841,  200,  200,  200,
-      842,  200,  843, 1367,  200,  200,  844,  200,  200,  684,
-      685,  686,  200, 1367,  200,  200,  687,  200,  200,  682,
-      200,  683,  200,  841,  200,  200,  200,  842,  200,  843,
-      200,  200,  200,  844, 1367,  200,  684, 1367,  686,  200,
-      689,  200,  200,  687,  200,  200, 1367,  200,  200, 1367,
-
-      845,  200,  690,  846,  200,  200,  200,  200,  847,  688,
-      200,  200, 1367,  200,  200, 1367,  200,  689,  691,  850,
-     1367,  200, 1367,  200, 1367,  200,  200,  845,  848,  690,
-      846,  200,  851,  200,  852,  847,  688,  200,  200,  849,
-      200,  200,  200,  200,  200,  691,  850,  693,  692,  200,
-      200,  200,  853,  200,  200,  848,  200,  200,  200,  851,
-      854,  852,  857,  694,  858, 1367,  849,  200,  200,  200,
-      695,  200,  200, 1367,  693,  692,  200,  200,  200,  853,
-     1367,  200,  200,  200,  200,  200, 1367,  854,  200,  857,
-      694,  858,  696,  859,  200,  200, 1367,  695,  200,  200,
-
-      855,  856,  697,  698,  200,  860,  200,  200,  200,  200,
-      200, 1367,  861,  200,  862,  200,  200,  863,  699,  696,
-      859, 1367,  864,  200, 1367,  200,  200,  855,  856,  697,
-      698, 1367,  860,  200,  200,  200,  700,  200,  200,  861,
-      200,  862,  200,  200,  863,  699,  865,  701,  200,  864,
-      200,  200, 1367,  200,  866, 1367,  200,  200,  200, 1367,
-      200,  867,  868,  700,  869,  200,  200,  200, 1367,  200,
-     1367,  702, 1367,  865,  701,  200,  200, 1367,  200,  703,
-     1367,  866,  200,  200,  200,  200,  200,  200,  867,  868,
-     1367,  869,  200,  200,  200,  705,  870,  200,  702,  200,
-
-      200,  200,  200,  200,  200,  200,  703,  200,  704,  200,
-      706,  871,  872,  200, 1367,  200,  873,  200, 1367,  200,
-      200,  874,  705,  870,  200,  875,  200,  200,  200,  200,
-      876,  200,  200, 1367,  200,  704,  200,  706,  871,  872,
-      200,  707,  200,  873,  200,  200,  200,  200,  874,  200,
-      708, 1367,  875, 1367,  200,  200,  200,  876,  877,  200,
-      200,  200,  711,  200,  200,  200,  710,  200,  707,  200,
-      200,  200,  200,  200,  200, 1367,  200,  708,  709, 1367,
-      200,  200,  200,  200,  200,  877,  200,  200,  200,  711,
-      200,  200,  200,  710,  878,  879,  200,  200,  200, 1367,
-
-      200,  200,  200,  880,  200,  709,  714,  200,  712,  200,
-      200,  200,  881,  200,  200,  200,  200,  200,  882,  883,
-      713,  878,  879,  884,  715,  200,  200,  200,  200,  200,
-      880,  200,  200,  714, 1367,  712,  200,  200,  200,  881,
-      200,  200,  200,  200,  885,  882,  883,  713,  200,  886,
-      884,  715,  200,  200,  716,  200,  200,  887,  888,  200,
-      717,  200, 1367,  889,  200,  200,  200,  890,  718,  200,
-      200,  885,  891,  200, 1367,  200,  886,  719,  892,  200,
-      200,  716,  893,  200,  887,  888, 1367,  717,  200,  200,
-      889,  200, 1367,  200,  890,  718,  200,  200, 1367,  891,
-
-      200,  720,  721,  200,  719,  892,  200,  200,  200,  893,
-     1367,  894,  200,  200,  200,  895,  200, 1367,  896,  200,
-     1367, 1367,  897, 1367,  200,  200, 1367,  200,  720,  721,
-      200, 1367,  200, 1367,  722,  200, 1367,  200,  894,  200,
-      200,  200,  895,  200,  723,  896,  200,  724,  200,  897,
-      200,  200,  200,  200,  200,  200,  998, 1367,  200,  200,
-      200,  722,  200,  200,  200, 1367,  999, 1367,  200, 1367,
-      200,  723, 1000,  725,  724,  200, 1001,  200,  200, 1367,
-      200, 1002,  200,  998,  200,  200, 1003,  200,  200,  200,
-      200, 1367,  200,  999,  200,  200,  200,  726,  727, 1000,
-
-      725, 1367,  200, 1001,  200,  200,  200, 1367, 1002, 1367,
-      200,  200,  200, 1003, 1004,  200,  728, 1367,  729,  200,
-     1005,  200,  200,  200,  726,  727,  200, 1367,  200,  200,
-      730,  200,  731,  200,  200, 1006,  200,  200,  200,  200,
-      200, 1004,  200,  728,  732,  729, 1007, 1005,  200,  200,
-      200, 1367,  200,  200,  733,  200,  200,  730, 1367,  731,
-      200,  200, 1006,  200,  200,  200,  200,  200, 1008,  200,
-     1009,  732,  734, 1007, 1010,  200,  200,  200,  200,  200,
-      735,  733,  200,  200,  200,  200, 1367,  200, 1011,  200,
-      200,  200, 1367,  200,  200, 1008, 1367, 1009, 1012,  734,
-
-      737, 1010, 1367,  200,  200,  200,  200,  735,  200,  200,
-      200,  200,  200,  200,  736, 1011,  200,  200,  200,  200,
-      200,  200,  200,  738,  742, 1012,  200,  737, 1013,  200,
-     1367,  200,  200,  200, 1367,  200, 1014,  200, 1015,  200,
-      200,  736,  200,  739,  200,  200,  200,  200,  200,  200,
-      738,  742, 1016,  200,  200, 1013,  200,  200,  200,  200,
-      743,  200,  200, 1014,  200, 1015,  200,  200,  200,  200,
-      739,  200,  745, 1367, 1017,  200, 1367,  200,  200, 1016,
-     1018,  200, 1367, 1019,  200,  200, 1367,  743,  200,  200,
-     1020,  200,  740,  200,  200,  200,  200,  200, 1367,  745,
-
-      200, 1017,  741,  200,  200,  200,  200, 1018, 1021,  744,
-     1019, 1367, 1022,  200, 1367, 1367,  200, 1020,  200,  740,
-      200,  200,  200,  200,  200,  200, 1023,  200,  200,  741,
-      200,  200, 1024,  200,  746, 1021,  744, 1025,  200, 1022,
-      200,  200,  747,  200, 1026,  200,  200, 1367,  200,  200,
-      200, 1027,  200, 1023, 1367,  200,  200, 1028,  200, 1024,
-      748,  746,  200, 1367, 1025,  200,  200,  200,  200,  747,
-     1029, 1026,  200,  200,  200, 1367,  200,  200, 1027, 1367,
-      749,  200, 1030,  200, 1028, 1367,  200,  748,  200,  200,
-      200, 1031,  751,  200,  200,  750,  200, 1029, 1367,  200,
-
-      200,  200,  200,  200, 1367, 1032,  752,  749,  200, 1030,
-      200, 1033,  200,  200, 1367,  200,  200,  200, 1031,  751,
-     1367,  200,  750,  200, 1034,  200,  200,  200,  200,  200,
-      756,  200, 1032,  752,  753,  200, 1367,  200, 1033,  200,
-      200,  200, 1367,  200, 1037, 1038, 1367,  761,  200,  200,
-     1367, 1034,  200,  200,  200,  200, 1367,  756,  200,  200,
-     1039,  753,  200,  200,  759,  200, 1367,  200,  200,  754,
-      200, 1037, 1038,  200,  761,  200,  200,  200, 1040, 1367,
-     1041,  200, 1035,  200, 1042, 1036,  200, 1039,  755, 1043,
-      200,  759,  200,  200, 1367, 1044,  754,  200, 1045, 1046,
-
-      200,  760,  200, 1367,  200, 1040,  200, 1041,  200, 1035,
-      200, 1042, 1036,  200, 1047,  755, 1043, 1048,  200,  762,
-      200,  757, 1044,  200, 1049, 1045, 1046, 1367,  760,  200,
-      200, 1367,  200,  200,  758,  200, 1050,  200, 1051,  200,
-      200, 1047,  200, 1367, 1048,  200,  762, 1367,  757, 1052,
-      200, 1049, 1053, 1367,  763, 1367,  200,  200,  200,  200,
-     1367,  758,  200, 1050,  200, 1051,  200,  200,  200,  200,
-      200,  200, 1054,  765,  200, 1367, 1052,  200,  200, 1053,
-      200,  763,  764, 1367,  766,  200,  200,  200, 1367,  200,
-      200,  200, 1055, 1367,  200,  200,  200,  200,  200, 1054,
-
-      765,  200,  768, 1367,  200,  200,  200,  200,  200,  764,
-      200,  766,  200,  200,  200,  767, 1056,  200,  200, 1055,
-      200,  200,  200,  200,  770,  200,  200, 1057,  200,  768,
-      200,  769, 1058,  200,  200,  200,  200,  200,  774,  200,
-      200,  200,  767, 1056,  200,  200,  200,  200,  200,  200,
-      200,  770,  200,  200, 1057,  200,  200,  200,  769, 1058,
-      200,  200, 1059,  200, 1060,  774,  200,  200,  200,  771,
-      200,  200,  200,  200,  200,  200,  200,  200, 1061,  200,
-      200, 1062, 1063,  200, 1064,  200,  773,  200,  772, 1059,
-      200, 1060,  200,  200,  200,  200,  771,  200, 1065,  200,
-
-      775,  200,  200,  200,  200, 1061,  200,  200, 1062, 1063,
-     1367, 1064,  200,  773, 1367,  772,  200,  200,  200,  200,
-     1066,  200,  200,  200,  776, 1065,  200,  775,  200, 1067,
-      777,  200,  200, 1068,  200, 1069,  200,  200,  778, 1070,
-     1071,  200,  200,  200, 1148,  200,  200, 1066, 1367, 1367,
-      200,  776, 1367, 1367, 1367,  200, 1067,  777, 1367,  200,
-     1068,  200, 1069,  200,  200,  778, 1070, 1071,  200,  200,
-      200, 1148,  200,  200,  200,  781,  780,  200,  779,  200,
-      200,  200,  200, 1149,  200,  200,  200, 1367, 1150, 1367,
-      200, 1151, 1152, 1153, 1367,  200, 1367,  200, 1154,  200,
-
-      200,  200,  781,  780,  200,  779,  200,  200,  200,  200,
-     1149,  200,  200,  200,  200, 1150,  782,  200, 1151, 1152,
-     1153,  200,  200,  783,  200, 1154,  200,  200,  200, 1367,
-      200, 1155,  784, 1367,  785, 1156, 1157,  200, 1158, 1367,
-     1159,  200,  200,  782,  200, 1160, 1161, 1367,  200, 1367,
-      783,  200, 1367,  200, 1162,  200,  200,  200, 1155,  784,
-      200,  785, 1156, 1157,  200, 1158,  786, 1159,  787,  200,
-      200,  200, 1160, 1161,  200, 1367,  200,  200,  789,  790,
-      788, 1162,  200,  200,  200, 1367,  200,  200, 1163,  200,
-      200, 1367,  200,  786, 1367,  787, 1367,  200, 1367, 1367,
-
-     1367,  200,  200,  200,  200,  789,  790,  788, 1367,  200,
-     1164,  200,  792,  200, 1165, 1163,  200,  200,  200,  200,
-      200,  200, 1166,  200,  200,  200,  200,  791,  200,  200,
-      200,  200, 1367,  200, 1367,  793,  200, 1164, 1167,  792,
-     1367, 1165, 1168, 1367, 1367,  200, 1367,  200,  200, 1166,
-      200,  200,  200,  200,  791,  200, 1169,  200,  200,  200,
-      200,  200,  793,  200, 1170, 1167,  200,  794,  200, 1168,
-      795,  200, 1171,  797,  796,  200, 1367,  200, 1367,  200,
-      200, 1172, 1367, 1169,  200, 1367,  200, 1367,  200,  200,
-     1173, 1170, 1367,  200,  794,  200, 1367,  795,  200, 1171,
-
-      797,  796,  200,  200,  200,  200,  200,  200, 1172,  798,
-      200,  200,  200, 1174,  200,  200,  200, 1173,  899,  200,
-     1367,  200, 1175,  200,  200, 1367, 1367,  900,  200, 1367,
-      200, 1176,  200,  200, 1367, 1367,  798,  200, 1367,  200,
-     1174,  200,  200,  200, 1367,  899,  200,  200,  200, 1175,
-      200,  200,  200,  200,  900,  200,  200, 1177, 1176,  200,
-      200,  904,  200,  901, 1178,  200,  200, 1179, 1180,  200,
-      200,  200,  902, 1181,  200,  200, 1367,  905,  903,  200,
-      200,  200, 1367,  200, 1177,  200,  200,  200,  904,  200,
-      901, 1178,  200,  200, 1179, 1180,  200,  200,  200,  902,
-
-     1181, 1182,  200,  907,  905,  903, 1367,  200,  200,  200,
-     1367,  906,  200,  200,  200,  200,  200, 1183, 1367,  200,
-     1367,  200, 1367,  200,  200,  200, 1184, 1185, 1182, 1186,
-      907, 1187, 1367,  908,  200,  200,  200,  200,  906, 1188,
-      200,  200,  200,  200, 1183,  200,  200,  200,  200,  200,
-      200, 1189,  200, 1184, 1185,  200, 1186,  200, 1187,  200,
-      908, 1190,  200,  200,  200,  200, 1188,  909,  200,  200,
-     1367,  200,  200, 1191,  200,  200,  200, 1192, 1189,  200,
-     1367,  200,  200, 1240,  200,  200,  200, 1242, 1190,  200,
-      200,  200,  200,  910,  909,  200,  200,  200,  200, 1243,
-
-     1191,  911,  200, 1244, 1192,  200,  200,  200,  200, 1367,
-     1240,  200,  200, 1367, 1242,  200,  200,  200,  200, 1367,
-      910,  200,  200,  200,  200,  200, 1243,  200,  911,  200,
-     1244,  200,  200,  200,  200,  200,  912, 1245,  200,  200,
-      913,  200,  200,  200,  200,  200,  914, 1246,  200,  915,
-      200,  200,  200,  200,  200, 1367,  200, 1367,  200,  200,
-      200,  200,  200,  912, 1245,  200,  200,  913,  200,  200,
-      200,  200,  200,  914, 1246,  200,  915, 1367,  200,  200,
-      200,  200,  917, 1367,  200,  200,  200,  200,  200,  200,
-      916,  924,  200, 1247,  200,  200,  200,  200,  200, 1367,
-
-     1248, 1367,  200,  200,  918,  200,  200,  200,  200,  917,
-      200,  200,  200, 1249,  200,  200,  200,  916,  924, 1367,
-     1247,  200,  200, 1250,  200, 1251,  200, 1248,  200, 1252,
-      200,  918,  200,  200,  200,  919, 1253,  200,  200,  200,
-     1249,  200,  200, 1254, 1367, 1255,  200,  920, 1256, 1367,
-     1250,  200, 1251,  200, 1367,  200, 1252, 1367,  921, 1367,
-      200, 1257,  919, 1253, 1258,  200,  200, 1259,  200,  200,
-     1254,  200, 1255,  200,  920, 1256,  200,  200,  200,  200,
-     1367,  200, 1260,  922,  200,  921,  923, 1261, 1257,  200,
-     1262, 1258, 1367, 1367, 1259,  200,  200,  200,  200, 1367,
-
-     1288, 1290,  200,  200,  200, 1291,  200,  200,  200, 1260,
-      922,  200, 1367,  923, 1261, 1292,  200, 1262,  925,  200,
-      200,  200,  200, 1293,  200,  200,  200, 1288, 1290,  200,
-      200,  200, 1291, 1294,  200, 1241, 1241,  200, 1367,  200,
-     1295, 1296, 1292, 1367,  200,  925,  200,  200,  200,  200,
-     1293, 1297,  200,  200, 1367,  926, 1298,  200,  200, 1299,
-     1294, 1300, 1367,  200,  200,  200,  200, 1295, 1296, 1317,
-      200,  200, 1318, 1289, 1319,  200,  200,  200, 1297,  200,
-     1367,  927,  926, 1298,  200, 1367, 1299, 1367, 1300,  200,
-      200,  200,  200,  200, 1367,  928, 1317,  200,  200, 1318,
-
-     1289, 1319,  200,  200,  200,  200,  200,  200,  927, 1320,
-     1367,  200,  200, 1321,  929, 1367,  200,  200,  200,  200,
-      200,  200,  928, 1367,  931,  200,  200,  930, 1367, 1324,
-      200,  200,  200, 1367,  200,  200, 1320,  200, 1367,  200,
-     1321,  929,  200, 1331,  200,  933,  200,  200,  200,  200,
-      932,  931, 1367,  200,  930,  200, 1324, 1332,  200, 1316,
-     1316,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-     1331,  200,  933,  200,  200,  200,  200,  932, 1367,  200,
-     1335,  200,  200,  200, 1332, 1338, 1367, 1340,  200,  200,
-      200,  200,  200,  200,  934,  200, 1367,  200,  200,  200,
-
-      200, 1330,  200,  935, 1367,  200,  200, 1335,  200,  936,
-      200, 1342, 1338,  200, 1340,  200,  200, 1344,  200,  937,
-      200,  934, 1367,  200,  200,  200,  200,  200, 1330, 1346,
-      935,  200,  200,  200, 1367,  200,  936, 1348, 1342, 1350,
-      200,  200,  200,  200, 1344,  200,  937, 1352, 1367,  200,
-      200,  200,  200,  938,  200,  200, 1346,  200,  200, 1367,
-      200,  200,  200, 1354, 1348,  200, 1350,  200,  200, 1367,
-      200, 1356,  200, 1367, 1352,  200,  200,  200,  200,  200,
-      938, 1358,  200,  200,  200,  200,  939,  200,  200,  200,
-     1354,  940,  200,  200,  200,  200,  200, 1367, 1356, 1323,
-
-     1316,  200,  200,  200,  200, 1367,  200, 1360, 1358, 1367,
-      200,  942,  200,  939,  200,  200,  200,  200,  940,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200,  200,  200,
-      200,  200,  941,  200, 1360,  200, 1367,  200,  942, 1367,
-      200, 1334,  200, 1367,  200,  944,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200, 1367,  200,  200,  200,  941,
-      200, 1367,  200,  200,  200, 1367,  943,  200, 1334,  200,
-     1367,  200,  944,  200, 1367,  945,  200, 1367, 1367, 1367,
-      200,  200, 1265, 1241,  200,  200, 1367,  200, 1367, 1367,
-      200,  946,  200,  943, 1367, 1367,  200,  200,  200,  200,
-
-      200,  200,  945,  200, 1367, 1367,  200, 1367,  200, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1367, 1367,  946,  200,
-     1303, 1367, 1367, 1367,  200,  947,  200,  949,  200,  200,
-      200, 1367,  200,  200,  200, 1367,  948,  200,  200,  200,
-     1367,  200,  200,  200, 1367, 1367, 1367, 1303,  200, 1367,
-     1367, 1367,  947,  200,  949, 1367,  200,  200, 1367,  200,
-      200,  200,  200,  948,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200, 1367,  200, 1367,
-      200,  200,  950,  200, 1367, 1367,  200,  200, 1367,  200,
-      200, 1367,  200, 1367,  200, 1367, 1367,  200,  200,  200,
-
-      200,  200,  200,  200,  951,  200,  200, 1367,  200,  950,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1367,  200,
-     1367, 1367,  952, 1367,  200, 1367,  200, 1367, 1367,  200,
-      200,  951,  200,  200,  200,  953, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200,  200,  200, 1367, 1367,  952,
-      200,  954,  955,  200,  956,  200,  200,  200,  200,  200,
-      200,  200,  953, 1367, 1367,  200,  200,  200, 1367,  200,
-      200,  200,  200,  200, 1367, 1367, 1367,  200,  954,  955,
-     1367,  956,  200,  200,  200,  200,  200,  200, 1367,  200,
-      957,  200,  200,  958,  200, 1367,  200,  200,  200,  200,
-
-      959, 1367,  200,  200,  200,  975,  200, 1367, 1367,  200,
-      200,  200,  200,  200,  200,  200,  200,  957,  200, 1367,
-      958,  200,  200,  200,  960,  200,  200,  959,  200,  200,
-      200,  200,  975,  200,  200, 1367,  200,  200, 1367,  200,
-     1367,  200,  200,  200,  200, 1367, 1367,  200, 1367,  200,
-     1367,  960, 1367,  200, 1367,  200,  961,  978, 1367,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1367, 1367,  200,
-      200,  200,  200, 1367,  200,  962, 1367,  200, 1367, 1367,
-      200,  200,  200,  961,  978, 1367,  200,  200, 1367,  200,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1367,  200,
-
-     1367, 1367,  962,  200,  200, 1367,  200,  200,  200,  200,
-      964,  963, 1367,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1367, 1367,  200,  200,  200,  200, 1367, 1367, 1367,
-      200, 1367, 1367,  200,  200,  200, 1367,  964,  963, 1367,
-      200,  965,  200,  200, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200,  200,  200, 1367,  966,  967, 1367, 1367,  200,
-      200,  200,  200,  200,  200, 1367, 1367, 1367,  965,  200,
-      200, 1367,  200, 1367, 1367, 1367, 1367, 1367,  200,  200,
-      200, 1367,  966,  967, 1367,  968,  200,  200,  200,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200,  200, 1367,
-
-     1367, 1367, 1367, 1367,  200,  200,  200,  200, 1367, 1367,
-     1367, 1367,  968,  200,  200, 1367,  200,  200, 1367, 1367,
-     1367,  200,  200,  200, 1367,  200,  969, 1367, 1367, 1367,
-     1367,  200,  200,  200, 1367,  200, 1367, 1367,  200,  200,
-      200,  200,  200,  970,  200,  200, 1367, 1367,  200, 1367,
-      200,  971, 1367,  969, 1367,  200, 1367, 1367,  200, 1367,
-      200, 1367,  200, 1367,  200,  200,  200,  200,  200,  200,
-      970,  200,  200,  973,  200,  200,  200,  200,  971,  972,
-      200, 1367,  200, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200, 1367,  200,  200,  200,  200,  974,  200,  200,
-
-      973,  200, 1367,  200,  200, 1367,  972,  200, 1367,  200,
-     1367,  200, 1367,  200,  200,  977,  200, 1367,  976,  200,
-      200, 1367, 1367,  200,  974,  200,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367, 1367,  977,  200, 1367,  976,  200,  979,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-      200, 1367,  981,  980,  979,  200,  200,  200,  200,  200,
-      200,  200,  200, 1367,  200, 1367, 1367,  982, 1367,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  981,
-
-      980,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200, 1367,  200,  982, 1367,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200, 1367,  200,  200,  200,
-     1367,  200,  983,  200, 1367, 1367,  984,  200,  200, 1367,
-      200,  200, 1367, 1367,  200, 1367, 1367, 1367, 1367, 1367,
-      200, 1367,  200, 1367,  200,  200,  200,  200,  200,  983,
-      200, 1367,  200,  984,  200,  985, 1367,  200,  200, 1367,
-     1367,  200, 1367,  200,  200,  992,  200, 1367,  200,  200,
-      986,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1367,  985, 1367,  200,  200, 1367,  200,  200,  987,
-
-      200,  200,  992,  200,  200,  200,  200,  986,  200,  200,
-      200, 1367,  200,  200, 1367, 1367,  200, 1367,  200,  989,
-     1367, 1367,  200,  200,  200,  988,  987,  200,  200,  200,
-      200,  200,  200, 1367,  200,  990,  200,  200, 1367,  200,
-     1367, 1367,  200,  200, 1367,  200,  989, 1367, 1367, 1367,
-      200, 1367,  988,  991,  200,  200,  200,  200,  200,  200,
-      200,  200,  990,  200,  200,  200,  200,  200,  200,  200,
-      200,  993,  200,  200, 1367, 1367, 1367, 1367,  200, 1367,
-      991, 1367, 1367,  200, 1367,  200, 1367,  200,  200, 1367,
-      200, 1367,  200, 1367,  200,  200, 1367,  200,  993,  200,
-
-      200, 1367,  200,  200,  995,  200,  200,  200,  200, 1367,
-      200, 1367,  200,  200,  200,  200,  200, 1367,  994, 1367,
-      200, 1367,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  995,  996,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1367,  200, 1367,  994, 1367,  200, 1367,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200,  200,  996,
-      200, 1367,  200,  200,  200,  200,  200,  200,  200,  200,
-      200,  200, 1367,  200, 1367, 1367,  200, 1367,  200, 1367,
-     1073,  200,  200, 1367,  200,  200, 1367,  200, 1367,  200,
-     1367, 1367,  200,  200,  200,  200,  200,  200,  200, 1367,
-
-      200, 1367, 1074,  200, 1367,  200,  200, 1073,  200, 1367,
-      200, 1075,  200, 1367,  200,  200, 1367, 1367, 1367, 1367,
-      200,  200,  200, 1367, 1367, 1367, 1367, 1367, 1367, 1074,
-      200,  200, 1367,  200, 1367, 1367,  200,  200, 1075,  200,
-      200,  200,  200, 1367, 1367, 1367,  200,  200,  200,  200,
-     1367, 1076, 1367, 1367, 1078,  200,  200,  200,  200,  200,
-     1077, 1367, 1367,  200,  200,  200, 1367,  200,  200, 1367,
-     1367, 1367, 1367,  200,  200,  200, 1367, 1367, 1076, 1367,
-     1367, 1078,  200,  200,  200, 1367,  200, 1077, 1079, 1367,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1080,  200,
-
-      200,  200,  200,  200,  200, 1081, 1367, 1367,  200,  200,
-      200,  200, 1367, 1367, 1367, 1079, 1367,  200,  200, 1367,
-     1367,  200,  200,  200,  200, 1080,  200,  200, 1082, 1367,
-      200,  200, 1081, 1367, 1367,  200,  200,  200,  200, 1367,
-     1083,  200,  200, 1084,  200,  200,  200, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1082, 1367, 1367, 1085, 1367,
-      200, 1367,  200, 1367,  200,  200, 1367, 1083,  200,  200,
-     1084,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1086, 1367, 1367, 1085, 1087,  200, 1367,  200,
-      200,  200,  200, 1367,  200, 1088, 1367,  200, 1367,  200,
-
-      200,  200,  200,  200, 1367, 1367, 1367,  200, 1089, 1086,
-      200, 1367,  200, 1087, 1367, 1367,  200,  200,  200,  200,
-      200,  200, 1088, 1367,  200, 1367,  200,  200,  200,  200,
-     1367, 1367, 1367, 1367,  200, 1089,  200,  200,  200,  200,
-     1367, 1367, 1090,  200, 1367,  200,  200,  200,  200, 1367,
-      200, 1367,  200,  200, 1092,  200,  200, 1367,  200,  200,
-     1367, 1091, 1367,  200,  200,  200,  200, 1367, 1367, 1090,
-     1093, 1367,  200,  200,  200,  200, 1094,  200, 1367,  200,
-      200, 1092,  200,  200, 1367,  200,  200, 1367, 1091, 1367,
-      200,  200,  200,  200, 1095, 1367,  200, 1093,  200,  200,
-
-      200,  200, 1367, 1094,  200, 1367,  200,  200, 1367,  200,
-     1367, 1096, 1367, 1367,  200, 1367,  200,  200, 1367,  200,
-      200, 1095, 1367,  200,  200,  200, 1367,  200, 1367, 1367,
-      200,  200,  200,  200,  200, 1097, 1367, 1367, 1096, 1098,
-      200,  200, 1367,  200,  200,  200, 1100,  200,  200, 1099,
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-      200,  200, 1097, 1367, 1367,  200, 1098,  200,  200, 1367,
-      200,  200,  200, 1100,  200,  200, 1099,  200,  200,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-      200, 1102,  200,  200,  200,  200,  200,  200, 1367,  200,
-
-     1104,  200,  200, 1367, 1101,  200,  200,  200, 1367,  200,
-     1367,  200,  200,  200, 1367,  200,  200,  200, 1102,  200,
-      200,  200, 1367,  200, 1367,  200,  200, 1104, 1367,  200,
-     1103, 1101, 1367,  200,  200,  200,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1106, 1105,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1367, 1367,  200, 1103, 1367, 1367,
-     1367,  200,  200, 1367, 1367,  200, 1367,  200,  200, 1367,
-      200, 1106, 1105, 1367, 1367,  200,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-     1107,  200,  200,  200,  200,  200, 1367,  200, 1367, 1367,
-
-      200, 1367, 1367, 1367, 1367,  200,  200, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1107,  200,  200,
-      200,  200,  200,  200,  200,  200, 1367,  200, 1367, 1109,
-      200, 1108,  200,  200,  200,  200,  200, 1367, 1367,  200,
-     1367, 1110, 1367, 1367, 1111, 1367,  200, 1367, 1367,  200,
-      200, 1367,  200, 1367, 1367, 1367, 1109,  200, 1108, 1367,
-      200,  200,  200,  200, 1367, 1112,  200,  200, 1110, 1367,
-     1367, 1111,  200,  200, 1367, 1367,  200,  200,  200,  200,
-      200,  200, 1367, 1367, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200, 1112, 1367,  200, 1367, 1367, 1367, 1367,  200,
-
-     1367, 1113, 1367, 1367,  200,  200,  200,  200,  200,  200,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200, 1113, 1367,
-      200, 1367,  200, 1367, 1367,  200,  200, 1367,  200, 1367,
-     1367, 1114, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200,  200,  200,  200,  200, 1116,  200, 1367,  200,
-     1115,  200,  200, 1367, 1367,  200, 1367,  200, 1114,  200,
-     1367, 1367,  200, 1367,  200, 1367, 1367, 1367,  200,  200,
-      200, 1367,  200, 1116, 1367, 1367, 1367, 1115,  200, 1367,
-     1367,  200,  200,  200,  200, 1367,  200, 1367,  200, 1117,
-
-      200,  200,  200,  200, 1367, 1118,  200,  200, 1119,  200,
-     1367,  200,  200, 1367, 1367, 1367,  200, 1367,  200, 1367,
-      200,  200, 1367, 1367, 1367,  200, 1117,  200, 1367,  200,
-      200, 1367, 1118, 1367,  200, 1119,  200, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1120,  200,  200,  200,  200,
-     1367,  200,  200, 1367, 1367,  200,  200, 1367, 1367, 1367,
-      200, 1367, 1367, 1367,  200,  200, 1367,  200, 1367,  200,
-      200,  200, 1120,  200,  200, 1121,  200, 1367,  200,  200,
-      200, 1367,  200,  200, 1122,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200, 1367, 1123,
-
-     1367, 1367, 1121, 1367, 1367,  200,  200,  200, 1367, 1367,
-     1367, 1122,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367, 1367,  200,  200,  200,  200, 1123, 1124, 1367, 1367,
-     1367, 1367,  200,  200,  200,  200, 1367, 1367, 1367, 1125,
-     1126,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-      200,  200,  200,  200, 1124, 1367, 1367, 1127, 1367,  200,
-      200,  200,  200,  200, 1128,  200, 1125, 1126,  200,  200,
-      200,  200,  200,  200, 1367,  200,  200,  200,  200, 1367,
-      200, 1367, 1367, 1367, 1127,  200,  200,  200,  200, 1129,
-      200, 1128,  200,  200,  200,  200,  200,  200,  200,  200,
-
-      200, 1367,  200,  200,  200,  200, 1130,  200, 1367, 1131,
-     1367,  200,  200,  200,  200,  200, 1129,  200, 1367,  200,
-      200,  200,  200,  200,  200,  200, 1132,  200, 1367,  200,
-      200,  200,  200, 1130,  200, 1367, 1131, 1367,  200,  200,
-      200,  200,  200, 1367,  200, 1367,  200, 1133,  200,  200,
-      200, 1367,  200, 1132,  200, 1367,  200, 1134,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200, 1135,  200,  200,
-     1367,  200,  200, 1367, 1133,  200, 1367, 1367, 1367,  200,
-     1367,  200, 1367, 1367, 1134,  200, 1367,  200,  200,  200,
-     1367, 1367,  200, 1367, 1135,  200, 1367, 1367,  200,  200,
-
-      200, 1367,  200,  200, 1367,  200, 1136,  200,  200, 1367,
-      200, 1137,  200, 1138, 1367,  200,  200, 1367, 1140, 1367,
-     1367, 1367, 1367,  200,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200, 1136,  200, 1367,  200,  200, 1137,  200,
-     1138, 1139,  200,  200, 1367, 1140, 1367, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1141, 1367,  200, 1139,  200,
-     1143, 1367,  200, 1367,  200,  200, 1367, 1142,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200,  200,  200,
-      200,  200, 1141, 1367,  200, 1367,  200, 1143,  200,  200,
-
-     1367,  200,  200, 1367, 1142,  200,  200,  200, 1367,  200,
-      200,  200,  200,  200, 1367,  200,  200,  200, 1144, 1367,
-     1367, 1145, 1367,  200, 1367,  200,  200, 1367, 1367, 1367,
-     1367, 1367,  200,  200,  200, 1367, 1367,  200,  200,  200,
-      200, 1367, 1367,  200,  200, 1144, 1367, 1146, 1145, 1367,
-      200, 1367, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200,  200, 1367, 1367,  200,  200,  200, 1367, 1367,
-      200,  200, 1367, 1367, 1146, 1367,  200, 1367,  200, 1367,
-     1367, 1367,  200,  200,  200,  200, 1194,  200,  200,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367, 1367,
-
-      200,  200, 1195,  200, 1367,  200,  200,  200, 1367, 1367,
-      200,  200,  200, 1194,  200,  200,  200,  200,  200, 1367,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200, 1195,
-      200, 1367, 1196,  200,  200, 1367, 1197,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200,  200, 1367,  200,  200,
-     1367, 1367, 1367,  200, 1367,  200,  200,  200, 1367, 1196,
-     1198, 1367, 1367, 1197,  200,  200, 1367,  200,  200,  200,
-      200, 1367,  200,  200, 1367, 1199,  200,  200, 1367,  200,
-      200, 1367,  200,  200,  200, 1367, 1200, 1198,  200,  200,
-     1367, 1367,  200,  200, 1367,  200, 1367,  200,  200, 1367,
-
-     1367, 1367, 1199, 1367,  200, 1367,  200,  200, 1367, 1367,
-      200,  200,  200, 1200, 1367,  200,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367,  200,  200, 1201,  200, 1202,
-      200,  200, 1367, 1367, 1367,  200, 1367,  200, 1367,  200,
-      200, 1367, 1367, 1367,  200, 1367,  200, 1367,  200,  200,
-     1203, 1367, 1367,  200, 1201,  200, 1202,  200,  200,  200,
-     1367,  200,  200, 1204, 1367,  200,  200,  200, 1367, 1367,
-      200,  200,  200, 1367,  200,  200, 1367, 1203, 1367,  200,
-     1205, 1367, 1367, 1367,  200, 1367,  200, 1367,  200, 1367,
-     1204, 1367,  200,  200, 1367, 1367, 1367,  200,  200,  200,
-
-     1367,  200,  200,  200, 1206,  200,  200, 1205, 1367, 1367,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200, 1367,  200, 1367, 1367,  200,
-      200, 1206,  200, 1367, 1367, 1367, 1207,  200, 1367, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-     1367,  200,  200,  200, 1367, 1367,  200,  200,  200,  200,
-      200, 1208, 1367, 1207, 1367,  200,  200, 1367, 1367, 1367,
-      200,  200,  200, 1367,  200, 1367, 1367, 1367, 1367,  200,
-     1367, 1367, 1367, 1367,  200,  200,  200,  200, 1208,  200,
-     1367,  200,  200,  200, 1367, 1209,  200,  200,  200,  200,
-
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200, 1367,
-     1367, 1367,  200, 1367,  200,  200,  200, 1367,  200, 1367,
-     1367, 1367, 1209,  200,  200, 1367,  200,  200,  200,  200,
-     1367,  200,  200, 1367,  200,  200,  200, 1367, 1210,  200,
-      200,  200,  200,  200, 1212,  200, 1367,  200,  200, 1367,
-      200,  200,  200, 1211,  200, 1367, 1213,  200, 1367, 1367,
-      200,  200, 1367,  200, 1367, 1210,  200,  200, 1367, 1367,
-      200, 1212,  200, 1367,  200,  200, 1367,  200, 1367,  200,
-     1211,  200, 1367, 1213,  200, 1367, 1367,  200,  200,  200,
-      200,  200,  200,  200, 1367, 1367,  200,  200,  200, 1367,
-
-      200,  200,  200, 1367, 1367,  200, 1367, 1367, 1367, 1367,
-      200, 1367, 1367, 1367, 1367, 1367,  200,  200,  200,  200,
-     1367, 1367, 1367,  200,  200,  200, 1367,  200,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1367, 1367,  200,  200, 1367, 1367,
-     1367, 1367,  200, 1367, 1367, 1367, 1367, 1367,  200, 1367,
-      200,  200, 1367,  200, 1367,  200, 1367,  200,  200,  200,
-      200, 1367, 1367,  200,  200,  200, 1215,  200, 1367,  200,
-      200, 1214,  200, 1367, 1367, 1367,  200,  200, 1367, 1367,
-      200, 1216, 1367, 1367,  200,  200,  200, 1367, 1367,  200,
-
-      200, 1367,  200, 1215,  200,  200, 1367,  200, 1214,  200,
-      200, 1367, 1367,  200,  200,  200, 1367,  200, 1216, 1367,
-      200,  200,  200,  200,  200, 1367,  200,  200, 1367,  200,
-      200,  200,  200, 1367, 1367, 1367, 1217,  200, 1367, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200, 1367, 1367,
-      200,  200, 1218, 1367,  200,  200,  200,  200,  200,  200,
-     1367, 1367, 1367, 1217,  200, 1367, 1367,  200,  200, 1367,
-      200,  200,  200,  200, 1219, 1367, 1367,  200,  200, 1218,
-     1367,  200,  200,  200, 1367,  200,  200,  200, 1367, 1367,
-     1367,  200,  200, 1367, 1367, 1367, 1367,  200,  200, 1367,
-
-      200, 1219, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200,  200, 1367, 1367,  200,
-      200, 1220, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,
-     1221,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1222,
-      200, 1367,  200,  200, 1367,  200,  200,  200, 1220,  200,
-     1223, 1225,  200,  200,  200,  200,  200, 1221, 1367, 1367,
-      200,  200,  200,  200,  200, 1367, 1222, 1367,  200, 1367,
-      200, 1367,  200,  200,  200, 1367,  200, 1223, 1225, 1367,
-     1367,  200,  200,  200, 1224, 1367, 1367,  200,  200, 1226,
-     1367,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-
-      200,  200, 1367, 1367,  200,  200, 1367, 1367, 1367, 1367,
-      200, 1224, 1367, 1227, 1367, 1367, 1226, 1367, 1367,  200,
-     1367,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-     1367,  200,  200, 1367,  200, 1367,  200,  200,  200, 1367,
-     1227, 1367, 1367, 1228, 1367,  200, 1367,  200,  200,  200,
-     1367,  200, 1229, 1367, 1367, 1367,  200,  200, 1367, 1367,
-     1367,  200, 1367,  200,  200,  200,  200, 1367, 1367, 1367,
-     1228,  200,  200, 1367,  200,  200,  200, 1367,  200, 1229,
-     1230, 1367, 1367, 1367,  200,  200, 1367,  200, 1367,  200,
-      200,  200, 1367,  200,  200, 1367, 1367, 1367,  200,  200,
-
-     1367, 1367, 1367,  200, 1367,  200, 1231, 1230,  200, 1367,
-     1367, 1367,  200,  200,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200, 1232, 1367, 1367,  200,  200, 1367, 1367,
-     1367, 1367,  200, 1231,  200,  200,  200, 1367, 1367, 1367,
-      200,  200, 1233, 1367, 1367,  200,  200,  200, 1367,  200,
-     1232, 1367, 1367,  200,  200,  200, 1367, 1367, 1367,  200,
-      200,  200, 1367,  200, 1367,  200, 1367, 1234,  200, 1233,
-     1367, 1367, 1367,  200, 1367, 1367,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1235, 1367,  200,  200,  200,
-     1367, 1367,  200, 1367, 1234, 1367, 1367, 1367, 1367, 1236,
-
-     1367, 1367, 1367,  200,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1235, 1367,  200,  200,  200, 1367,  200,  200,
-      200,  200, 1367,  200, 1367,  200, 1236, 1367,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200, 1367,  200,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-     1238,  200,  200, 1237,  200, 1367,  200,  200,  200,  200,
-      200,  200,  200,  200, 1367,  200, 1367, 1367,  200, 1367,
-      200, 1367, 1367,  200,  200, 1367,  200, 1238, 1367,  200,
-
-     1237,  200, 1367, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200, 1367,  200, 1367, 1367,  200, 1264, 1367, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1367,  200,  200,  200,
-      200,  200,  200,  200,  200,  200,  200,  200,  200, 1367,
-      200,  200,  200,  200, 1264,  200, 1265, 1241,  200, 1367,
-     1367,  200,  200, 1367,  200, 1367, 1266, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200,  200, 1367, 1367,  200,  200, 1367,  200,  200,
-     1367,  200, 1267, 1266, 1367,  200,  200,  200,  200,  200,
-
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1367,
-      200, 1367,  200,  200,  200,  200,  200, 1367,  200, 1267,
-      200, 1367,  200,  200, 1367, 1268,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200,  200, 1367,  200,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200, 1271, 1269,
-     1367, 1367, 1268,  200,  200, 1367,  200,  200,  200,  200,
-     1367,  200,  200,  200,  200,  200, 1270, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1271, 1269, 1367,  200,  200,
-      200,  200,  200, 1367,  200,  200,  200,  200,  200,  200,
-      200,  200, 1367, 1270,  200,  200,  200, 1367,  200,  200,
-
-      200,  200, 1367, 1367,  200,  200,  200, 1367, 1367,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1367,  200,
-      200,  200, 1367, 1367,  200,  200,  200,  200, 1273,  200,
-      200,  200, 1272, 1367, 1367,  200, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200,  200, 1367,  200,  200,  200, 1367,
-     1367,  200, 1367,  200, 1367, 1273,  200,  200, 1367, 1272,
-     1367, 1367,  200, 1367,  200, 1367,  200,  200,  200, 1367,
-      200,  200,  200, 1367,  200,  200,  200, 1275, 1367,  200,
-      200,  200,  200,  200,  200,  200,  200,  200, 1367, 1274,
-      200,  200, 1276,  200, 1367,  200, 1367,  200,  200,  200,
-
-     1367,  200,  200,  200, 1275, 1367,  200, 1367,  200,  200,
-      200,  200,  200,  200,  200, 1367, 1274,  200,  200, 1276,
-     1277,  200,  200,  200,  200,  200, 1367, 1367,  200,  200,
-      200, 1367,  200,  200,  200, 1367, 1367, 1367, 1367,  200,
-     1367, 1367, 1278, 1367,  200,  200, 1367, 1277,  200, 1367,
-      200,  200,  200,  200, 1367,  200, 1367,  200,  200,  200,
-      200,  200, 1367,  200, 1367,  200,  200,  200, 1367, 1278,
-     1367,  200,  200, 1279, 1367, 1367, 1367,  200,  200, 1367,
-      200, 1367, 1367, 1280,  200,  200,  200, 1367, 1367, 1367,
-      200,  200,  200, 1367,  200,  200,  200,  200, 1367,  200,
-
-     1279, 1367,  200, 1367,  200, 1367, 1367,  200, 1367, 1367,
-     1280,  200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200, 1281,  200,  200, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,
-     1282,  200,  200,  200,  200,  200,  200,  200, 1367,  200,
-     1281, 1367,  200, 1367,  200, 1367, 1367,  200,  200, 1283,
-      200,  200, 1367,  200,  200,  200,  200, 1282,  200, 1367,
-      200,  200, 1284,  200, 1285, 1367,  200, 1367,  200, 1367,
-     1367, 1367, 1367, 1367,  200,  200, 1283,  200, 1367, 1367,
-
-     1367,  200,  200,  200,  200, 1367, 1286,  200,  200, 1284,
-      200, 1285, 1367,  200,  200,  200,  200, 1367,  200,  200,
-     1367,  200, 1367,  200,  200, 1367,  200, 1367, 1367,  200,
-     1367,  200,  200, 1286,  200, 1367,  200,  200, 1367,  200,
-     1367,  200,  200,  200,  200,  200,  200, 1367,  200, 1367,
-      200,  200,  200,  200,  200, 1367,  200, 1302,  200,  200,
-     1367,  200,  200,  200,  200, 1367,  200, 1367,  200,  200,
-      200,  200,  200, 1304,  200,  200,  200, 1367,  200,  200,
-      200,  200,  200, 1367, 1302,  200, 1367, 1367, 1367,  200,
-      200,  200,  200, 1367,  200,  200, 1367,  200,  200,  200,
-
-     1304,  200, 1367,  200,  200,  200,  200,  200, 1305,  200,
-      200, 1367, 1367, 1367,  200, 1367,  200,  200, 1367,  200,
-     1367,  200, 1367, 1367,  200,  200,  200, 1367,  200, 1367,
-     1367,  200,  200,  200,  200, 1305,  200,  200, 1367, 1306,
-     1367,  200,  200,  200,  200, 1367, 1367, 1367, 1367, 1367,
-      200,  200,  200,  200,  200,  200, 1367, 1367, 1367,  200,
-      200,  200, 1367,  200, 1367, 1367, 1306, 1367, 1367,  200,
-      200,  200,  200, 1367, 1367, 1367,  200,  200, 1367,  200,
-     1367,  200,  200, 1309,  200, 1307, 1308,  200,  200, 1367,
-      200,  200,  200, 1367, 1310,  200,  200,  200,  200,  200,
-
-      200, 1367, 1367,  200,  200, 1367, 1367, 1367, 1367,  200,
-     1309,  200, 1307, 1308,  200,  200,  200,  200,  200,  200,
-      200, 1310,  200,  200,  200,  200,  200,  200,  200,  200,
-     1367,  200, 1367,  200,  200, 1367,  200, 1367,  200,  200,
-     1367,  200,  200,  200,  200, 1367, 1367,  200,  200,  200,
-     1367,  200, 1367,  200, 1367,  200,  200, 1367, 1311, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200,  200,
-      200,  200,  200,  200, 1313,  200,  200,  200,  200, 1312,
-      200, 1314,  200,  200, 1367, 1311,  200, 1367,  200, 1367,
-      200, 1367,  200,  200, 1367,  200, 1367,  200, 1367,  200,
-
-      200, 1313,  200, 1367,  200,  200, 1312,  200, 1314,  200,
-      200, 1323, 1316,  200, 1325,  200, 1367,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1367,  200,  200, 1367,  200,
-     1367, 1367,  200,  200,  200, 1367,  200, 1367, 1367, 1367,
-      200, 1325,  200,  200, 1367,  200,  200, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200, 1367, 1367,  200,
-      200,  200, 1367,  200,  200, 1367,  200,  200, 1367,  200,
-      200, 1326,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200, 1327, 1367,  200, 1367, 1367,
-      200,  200, 1367,  200, 1367, 1367, 1367, 1367, 1326,  200,
-
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200,  200, 1327, 1367,  200,  200,  200,  200,  200, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200,  200,
-      200, 1328, 1367,  200,  200,  200,  200,  200,  200,  200,
-     1367,  200,  200,  200,  200,  200,  200,  200,  200,  200,
-      200, 1367,  200,  200,  200,  200,  200,  200, 1328, 1367,
-      200,  200, 1367,  200, 1367,  200,  200, 1367,  200, 1367,
-      200,  200, 1367,  200,  200,  200,  200, 1336, 1367, 1367,
-      200,  200,  200, 1367,  200, 1367,  200,  200, 1367, 1367,
-      200,  200, 1367, 1367, 1367, 1367,  200,  200, 1367, 1367,
-
-     1367,  200,  200, 1367, 1336, 1367, 1367,  200, 1367,  200,
-     1367,  200, 1367,  200,  200, 1367, 1367,  200,  200, 1367,
-     1367, 1367, 1367,  200,   46,   46,   46,   46,   46,   88,
-     1367, 1367,   88,   88,  185,  185,  185, 1367,  185,  187,
-     1367,  187,  187,  187,  190, 1367,  190,  190,  190,  200,
-     1367,  200,  200,  200,    7, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367
+       42,   43,   37,   44,   37,   45,   50,   50,   50,   50,
+       53,   55,   55,   55,   55,   55,   55,   55,   55,   55,
+       55,   54,   56,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   58,   59,   63,   69,   64,   93,   95,
+       70,   73,  103,   65,   94,   66,   71,   96,   74,   67,
+       68,  104,  140,   97,  141,   75,   72,  142,   76,   62,
+      147,   77,   63,   69,   64,   93,   95,   70,   73,  103,
+       65,   94,   66,   71,   96,   74,   67,   68,  104,  140,
+       97,  141,   75,   72,  142,   76,   78,  147,   77,   83,
+       79,   84,   50,   50,   80,  105,   85,  155,  108,  106,
+       81,   86,  109,   82,  691,  107,  630,  630,  110,  145,
+      146,  156,  690,   78,  667,  667,   83,   79,   84,  689,
+      111,   80,  105,   85,  155,  108,  106,   81,   86,  109,
+
+       82,   87,  107,  120,  112,  110,  145,  146,  156,   88,
+      113,  114,   89,  161,  121,   90,   98,  111,   91,  687,
+      122,   92,   99,  100,  101,  143,  162,  685,   87,  102,
+      120,  112,  683,  144,  681,  679,   88,  113,  114,   89,
+      161,  121,   90,   98,  166,   91,  115,  122,   92,   99,
+      100,  101,  143,  162,  116,  123,  102,  157,  117,  124,
+      144,  118,  119,  125,  159,  158,  167,  160,  170,  126,
+      677,  166,  673,  115,  177,  666,  185,  186,  652,  187,
+      628,  116,  123,  582,  157,  117,  124,  507,  118,  119,
+      125,  159,  158,  167,  160,  170,  126,  127,  188,  128,
+
+      189,  177,  129,  185,  186,  130,  187,  131,  408,  132,
+      133,   55,   55,   55,   55,   55,   55,   55,   55,   55,
+       55,  163,  164,  168,  127,  188,  128,  189,  280,  129,
+      169,  192,  130,  198,  131,  165,  132,  133,  134,  171,
+      172,  173,  135,  174,  175,  136,  137,  199,  163,  164,
+      168,  200,  138,  203,  176,  139,  153,  169,  192,  152,
+      198,  150,  165,  148,   61,  134,  171,  172,  173,  135,
+      174,  175,  136,  137,  199,   60,   51,  692,  200,  138,
+      203,  176,  139,  154,  154,  154,  154,  154,  154,  154,
+      154,  154,  154,   56,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,  178,  180,  204,  181,  201,  179,
+      182,  190,  191,  193,  202,  194,  183,  205,  206,  195,
+      209,  207,  210,  184,  208,  211,  196,  212,   49,  217,
+      197,  178,  180,  204,  181,  201,  179,  182,  190,  191,
+      193,  202,  194,  183,  205,  206,  195,  209,  207,  210,
+      184,  208,  211,  196,  212,  213,  217,  197,  218,  219,
+      220,  221,  223,  222,  224,  214,  226,  227,  228,  229,
+      215,  216,  232,  230,  233,  225,  231,  234,  235,  236,
+      237,  238,  213,  239,  242,  218,  219,  220,  221,  223,
+      222,  224,  214,  226,  227,  228,  229,  215,  216,  232,
+
+      230,  233,  225,  231,  234,  235,  236,  237,  238,  240,
+      239,  242,  243,  241,  247,  248,  250,  244,  251,  254,
+      256,  257,  258,  259,  260,  245,  249,  252,   49,  263,
+      246,  264,  265,  255,   47,  253,  240,  271,  272,  243,
+      241,  247,  248,  250,  244,  251,  254,  256,  257,  258,
+      259,  260,  245,  249,  252,  261,  263,  246,  264,  265,
+      255,  266,  253,  268,  271,  272,  262,  275,  273,  277,
+      269,  278,  279,  270,  274,  281,  282,  283,  284,  285,
+      276,  267,  261,   47,  692,  692,  692,  692,  266,  692,
+      268,  692,  286,  262,  275,  273,  277,  269,  278,  279,
+
+      270,  274,  281,  282,  283,  284,  285,  276,  267,  154,
+      154,  154,  154,  154,  154,  154,  154,  154,  154,  286,
+      287,  288,  289,  290,  291,  294,  292,  295,  296,  297,
+      298,  299,  300,  301,  302,  303,  304,  305,  306,  692,
+      309,  293,  310,  311,  312,  313,  314,  287,  288,  289,
+      290,  291,  294,  292,  295,  296,  297,  298,  299,  300,
+      301,  302,  303,  304,  305,  306,  307,  309,  293,  310,
+      311,  312,  313,  314,  315,  316,  317,  318,  319,  320,
+      321,  308,  322,  323,  324,  325,  326,  328,  329,  330,
+      331,  332,  333,  307,  327,  334,  335,  336,  337,  338,
+
+      339,  315,  316,  317,  318,  319,  320,  321,  308,  322,
+      323,  324,  325,  326,  328,  329,  330,  331,  332,  333,
+      340,  327,  334,  335,  336,  337,  338,  339,  341,  343,
+      344,  345,  346,  347,  348,  349,  351,  352,  342,  353,
+      354,  355,  356,  357,  358,  350,  359,  340,  360,  361,
+      362,  365,  692,  368,  369,  341,  343,  344,  345,  346,
+      347,  348,  349,  351,  352,  342,  353,  354,  355,  356,
+      357,  358,  350,  359,  363,  360,  361,  362,  365,  366,
+      368,  369,  370,  371,  372,  373,  374,  375,  376,  377,
+      378,  379,  367,  364,  380,  381,  382,  383,  384,  385,
+
+      386,  363,  387,  388,  389,  390,  366,  391,  394,  370,
+      371,  372,  373,  374,  375,  376,  377,  378,  379,  367,
+      364,  380,  381,  382,  383,  384,  385,  386,  392,  387,
+      388,  389,  390,  397,  391,  394,  395,  393,  396,  398,
+      399,  400,  401,  402,  403,  404,  406,  407,  409,  405,
+      410,  411,  412,  413,  414,  392,  415,  416,  417,  418,
+      397,  419,  420,  395,  393,  396,  398,  399,  400,  401,
+      402,  403,  404,  406,  407,  409,  405,  410,  411,  412,
+      413,  414,  421,  415,  416,  417,  418,  422,  419,  420,
+      423,  424,  425,  426,  427,  428,  429,  430,  431,  432,
+
+      433,  434,  435,  436,  437,  438,  439,  440,  441,  421,
+      442,  443,  444,  445,  422,  446,  447,  423,  424,  425,
+      426,  427,  428,  429,  430,  431,  432,  433,  434,  435,
+      436,  437,  438,  439,  440,  441,  448,  442,  443,  444,
+      445,  449,  446,  447,  450,  451,  452,  453,  454,  455,
+      456,  457,  459,  460,  461,  462,  463,  464,  465,  466,
+      467,  468,  458,  448,  469,  470,  471,  472,  449,  473,
+      474,  450,  451,  452,  453,  454,  455,  456,  457,  459,
+      460,  461,  462,  463,  464,  465,  466,  467,  468,  458,
+      475,  469,  470,  471,  472,  476,  473,  474,  477,  478,
+
+      479,  480,  481,  482,  483,  484,  485,  486,  487,  488,
+      489,  490,  491,  492,  493,  494,  495,  475,  496,  497,
+      498,  499,  476,  500,  501,  477,  478,  479,  480,  481,
+      482,  483,  484,  485,  486,  487,  488,  489,  490,  491,
+      492,  493,  494,  495,  502,  496,  497,  498,  499,  503,
+      500,  501,  504,  505,  506,  508,  509,  510,  511,  512,
+      513,  514,  515,  516,  517,  518,  519,  520,  521,  522,
+      523,  502,  524,  525,  526,  527,  503,  528,  529,  504,
+      505,  506,  508,  509,  510,  511,  512,  513,  514,  515,
+      516,  517,  518,  519,  520,  521,  522,  523,  530,  524,
+
+      525,  526,  527,  531,  528,  529,  532,  533,  534,  535,
+      536,  537,  538,  539,  540,  541,  542,  543,  544,  545,
+      547,  548,  546,  549,  550,  530,  551,  552,  553,  554,
+      531,  555,  556,  532,  533,  534,  535,  536,  537,  538,
+      539,  540,  541,  542,  543,  544,  545,  547,  548,  546,
+      549,  550,  557,  551,  552,  553,  554,  558,  555,  556,
+      559,  560,  561,  562,  563,  564,  565,  566,  567,  568,
+      569,  570,  571,  572,  573,  574,  575,  576,  577,  557,
+      578,  579,  580,  581,  558,  583,  584,  559,  560,  561,
+      562,  563,  564,  565,  566,  567,  568,  569,  570,  571,
+
+      572,  573,  574,  575,  576,  577,  585,  578,  579,  580,
+      581,  586,  583,  584,  587,  588,  589,  590,  591,  592,
+      593,  594,  595,  596,  597,  598,  599,  600,  601,  602,
+      603,  604,  605,  585,  606,  607,  608,  609,  586,  610,
+      611,  587,  588,  589,  590,  591,  592,  593,  594,  595,
+      596,  597,  598,  599,  600,  601,  602,  603,  604,  605,
+      612,  606,  607,  608,  609,  613,  610,  611,  614,  615,
+      616,  617,  618,  619,  620,  621,  622,  623,  624,  625,
+      626,  627,  629,  631,  632,  633,  634,  612,  635,  636,
+      637,  638,  613,  639,  640,  614,  615,  616,  617,  618,
+
+      619,  620,  621,  622,  623,  624,  625,  626,  627,  629,
+      631,  632,  633,  634,  641,  635,  636,  637,  638,  642,
+      639,  640,  643,  644,  645,  646,  647,  648,  649,  650,
+      651,  653,  630,  630,  655,  656,  657,  658,  659,  660,
+      661,  641,  662,  692,  663,  664,  642,  665,  668,  643,
+      644,  645,  646,  647,  648,  649,  650,  651,  653,  669,
+      670,  655,  656,  657,  658,  659,  660,  661,  671,  662,
+      654,  663,  664,  672,  665,  668,  667,  667,  675,  676,
+      678,  680,  682,  684,  686,  688,  669,  670,  692,  692,
+      692,  692,  692,  692,  692,  671,  692,  654,  692,  692,
+
+      672,  692,  692,  692,  692,  675,  676,  678,  680,  682,
+      684,  686,  688,  692,  692,  692,  692,  692,  674,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  674,   46,   46,   46,   46,
+       46,   48,   48,   48,   48,   48,   52,  692,  692,   52,
+       52,  149,  149,  149,  692,  149,  151,  692,  151,  151,
+      151,    7,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692
     } ;
 
-static yyconst flex_int16_t yy_chk[9032] =
+static const flex_int16_t yy_chk[1549] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -1871,993 +1052,169 @@ static yyconst flex_int16_t yy_chk[9032] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    9,    9,   10,   10,   15,   16,   16,   16,
-       16,   16,   16,   16,   16,   16,   16,   15,   17,   17,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
-       18,   21,   22,   21,   27,   28,   22,   23,   30,   21,
-       27,   21,   22,   28,   23,   21,   21,   31,   41,   28,
-
-       41,   23,   22,   41,   23, 1370,   44,   23,   21,   22,
-       21,   27,   28,   22,   23,   30,   21,   27,   21,   22,
-       28,   23,   21,   21,   31,   41,   28,   41,   23,   22,
-       41,   23,   24,   44,   23,   25,   24,   25,   49,   49,
-       24,   32,   25,   99,   33,   32,   24,   25,   33,   24,
-       55,   32,   50,   50,   33,   43,   43,   58,   58,   24,
-     1364,   55,   25,   24,   25, 1363,   34,   24,   32,   25,
-       99,   33,   32,   24,   25,   33,   24,   26,   32,   36,
-       34,   33,   43,   43,  100,   26,   34,   34,   26,  103,
-       36,   26,   29,   34,   26, 1362,   36,   26,   29,   29,
-
-       29,   42,   86,   86,   26,   29,   36,   34, 1361,   42,
-     1359,  100,   26,   34,   34,   26,  103,   36,   26,   29,
-     1357,   26,   35,   36,   26,   29,   29,   29,   42,  104,
-       35,   38,   29,  101,   35,   38,   42,   35,   35,   38,
-       81,  101,   81,  106,   81,   38, 1355,   81, 1353,   35,
-      102, 1351,   81,  102, 1349,  107,  104,   35,   38, 1347,
-      101,   35,   38, 1345,   35,   35,   38,   81,  101,   81,
-      106,   81,   38,   39,   81,   39,  110,  102,   39,   81,
-      102,   39,  107,   39,  113,   39,   39,   56,   56,   56,
-       56,   56,   56,   56,   56,   56,   56,  188,  188, 1343,
-
-       39, 1341,   39,  110, 1339,   39,  105,  105,   39,  109,
-       39,  113,   39,   39,   40,  112,  109,   67,   40,   67,
-      105,   40,   40,   67,   67,  112,  116,  116,   40,   67,
-      117,   40, 1337,  105,  105, 1333,  109, 1155, 1155, 1288,
-     1288,   40,  112,  109,   67,   40,   67,  105,   40,   40,
-       67,   67,  112,  116,  116,   40,   67,  117,   40,   57,
-       57,   57,   57,   57,   57,   57,   57,   57,   57,   57,
-       61,   61,  118,   61,   61,   61,   61,   61,   61,  119,
-       68,  114, 1329, 1322,   68, 1315,  114,  121,   68,   61,
-       61,   61,   70,  123,   68,   61,   70,   61,  124,  118,
-
-      120,  120,   70,   61,   68,   61,  119,   68,  114,   61,
-       61,   68,   70,  114,  121,   68,  125,  127, 1301,   70,
-      123,   68,   61,   70,   61,  124, 1287,  120,  120,   70,
-       61,   68,   61, 1263,  128, 1239,   61,   61, 1193,   70,
-     1147, 1072,  997,  125,  127,   61,   62,   62,  898,   62,
-       62,   62,   62,   62,   62,  799,  671,  129,   71,   72,
-       73,  128,   71,   72,   73,   62,   62,   62,   71,   72,
-       73,  130,   62,   77,  132,  126,   62,   77,   71,   72,
-       73,  126,   62,   77,  129,   71,   72,   73,  133,   71,
-       72,   73,   62,   77,  543,   71,   72,   73,  130,   62,
-
-       77,  132,  126,   62,   77,   71,   72,   73,  126,   62,
-       77,  416,  288,   83,  135,  133,   83,   83,  136,   62,
-       77,   62,   63,   83,   78,  192,   63,  138,   78,   63,
-       63,  131,   78,   83,  131,  190,   63,  139,   78,   63,
-       83,  135,   63,   83,   83,  136,   63,   90,   78,   63,
-       83,   78,  137,   63,  138,   78,   63,   63,  131,   78,
-       83,  131,  137,   63,  139,   78,   63,  137,  137,   63,
-       88,   85,   82,   63,   64,   78,   82,   84,   64,  137,
-       82,   84,   64,  140,  141,  144,   82,   84,   64,  137,
-      142,   64,  142,  145,  137,  137,   82,   84,   64,   82,
-
-       60,   64,   59,   82,   84,   64,   52,   82,   84,   64,
-      140,  141,  144,   82,   84,   64,   51,  142,   64,  142,
-      145,  146,  147,   82,   84,   64,   65,  111,  111,  111,
-       65,  111,  115,   65,  115,   65,   65,  115,  149,  143,
-       65,  143,  150,  115,  151,   65,   65,   47,  146,  147,
-      115,   45,  143,   65,  111,  111,  111,   65,  111,  115,
-       65,  115,   65,   65,  115,  149,  143,   65,  143,  150,
-      115,  151,   65,   65,   66,  148,  153,  115,  148,  143,
-      154,   66,   66,  155,  156,   66,  157,  122,   66,  122,
-      159,   66,  158,  122,   66,   20,  158,  161,   19,  163,
-
-      122,   66,  148,  153,  122,  148,   11,  154,   66,   66,
-      155,  156,   66,  157,  122,   66,  122,  159,   66,  158,
-      122,   66,   69,  158,  161,  162,  163,  122,   69,   69,
-       69,  122,  160,  165,  164,   69,  162,  160,  166,  167,
-       69,    7,  168,  164,  169,  160,  170,  165,    4,   69,
-      160,  164,  162,  172,  173,   69,   69,   69,    3,  160,
-      165,  164,   69,  162,  160,  166,  167,   69,   74,  168,
-      164,  169,  160,  170,  165,   74,  171,  160,  164,  174,
-      172,  173,   74,  177,  176,   74,    0,  171,   74,   74,
-        0,  176,  178,  175,  176,   74,    0,    0,  181,  179,
-
-      182,  183,   74,  171,    0,  179,  174,    0,  291,   74,
-      177,  176,   74,  175,  171,   74,   74,   75,  176,  178,
-      175,  176,   75,  180,   75,  181,  179,  182,  183,  293,
-       75,   75,  179,  294,   75,  291,  180,   75,   75,    0,
-      175,    0,    0,    0,   75,    0,    0,    0,    0,   75,
-      180,   75,    0,    0,    0,  296,  293,   75,   75,    0,
-      294,   75,  208,  180,   75,   75,   76,  208,  200,  208,
-      201,  201,  200,   76,  208,  201,  298,   76,  200,  208,
-       76,  201,  296,   76,  299,  300,   76,    0,  200,  208,
-      301,  201,    0,   76,  208,  200,  208,  201,  201,  200,
-
-       76,  208,  201,  298,   76,  200,  208,   76,  201,    0,
-       76,  299,  300,   76,   79,  200,   79,  301,  201,   79,
-       79,  302,   79,  203,   79,  203,   79,   79,    0,    0,
-      203,  203,    0,    0,  303,  203,   79,    0,    0,    0,
-        0,   79,    0,   79,    0,    0,   79,   79,  302,   79,
-      203,   79,  203,   79,   79,  202,  209,  203,  203,  202,
-      209,  303,  203,   79,   80,  202,  209,  205,   80,  205,
-      202,   80,   80,  205,  205,  202,  209,  305,   80,  205,
-      306,   80,  202,  209,  307,  308,  202,  209,   80,    0,
-        0,   80,  202,  209,  205,   80,  205,  202,   80,   80,
-
-      205,  205,  202,  209,  305,   80,  205,  306,   80,    0,
-        0,  307,  308,    0,    0,   80,   91,   91,   91,   91,
-       91,   91,   91,   91,   91,   91,   92,   92,   92,   92,
-       92,   92,   92,   92,   92,   92,   93,   93,   93,   93,
-       93,   93,   93,   93,   93,   93,   93,  193,  193,  193,
-      193,  193,  193,  193,  193,  193,  193,  194,  194,  194,
-      194,  194,  194,  194,  194,  194,  194,  195,  195,  195,
-      195,  195,  195,  195,  195,  195,  195,  195,  204,  206,
-      304,  204,  304,  309,  310,  311,  312,    0,  206,  204,
-      206,  204,  313,  314,  210,  206,  204,  304,  210,  315,
-
-      206,  204,    0,    0,  210,  204,  206,  304,  204,  304,
-      309,  310,  311,  312,  210,  206,  204,  206,  204,  313,
-      314,  210,  206,  204,  304,  210,  315,  206,  204,  207,
-      207,  210,  211,  316,  211,  207,    0,  207,  317,  211,
-      212,  210,  207,  207,  211,  319,  320,  207,  321,  322,
-        0,  212,  323,  212,    0,  324,  207,  207,  212,  211,
-      316,  211,  207,  212,  207,  317,  211,  212,    0,  207,
-      207,  211,  319,  320,  207,  321,  322,  214,  212,  323,
-      212,  214,  324,  325,    0,  212,  318,  214,    0,    0,
-      212,  213,  213,  213,    0,  213,  215,  214,  213,    0,
-
-      215,  318,  327,  213,  214,  221,  215,  221,  214,  215,
-      325,  216,  221,  318,  214,  216,  215,  221,  213,  213,
-      213,  216,  213,  215,  214,  213,  216,  215,  318,  327,
-      213,  216,  221,  215,  221,  328,  215,    0,  216,  221,
-        0,  329,  216,  215,  221,    0,    0,    0,  216,  330,
-        0,    0,    0,  216,  331,    0,  332,  333,  216,  217,
-        0,  217,  328,    0,  217,  334,  335,  218,  329,  218,
-      217,    0,  217,  218,  218,    0,  330,  217,  219,  218,
-      219,  331,  217,  332,  333,  219,  217,  219,  217,  336,
-      219,  217,  334,  335,  218,  337,  218,  217,  220,  217,
-
-      218,  218,  220,  337,  217,  219,  218,  219,  220,  217,
-      338,  339,  219,  340,  219,  223,  336,  219,  220,    0,
-        0,  341,  337,  227,  223,  220,  223,  227,    0,  220,
-      337,  223,  225,  227,  225,  220,  223,  338,  339,  225,
-      340,  342,  223,  227,  225,  220,  222,  222,  341,    0,
-      227,  223,  343,  223,  227,  222,    0,  222,  223,  225,
-      227,  225,  222,  223,  344,  345,  225,  222,  342,  346,
-      227,  225,  347,  222,  222,  348,  226,  349,  226,  343,
-        0,    0,  222,  226,  222,    0,    0,    0,  226,  222,
-        0,  344,  345,    0,  222,  224,  346,  224,    0,  347,
-
-        0,  224,  348,  226,  349,  226,  350,  224,  224,  229,
-      226,  352,  224,  229,  228,  226,  228,  224,    0,  229,
-      228,  228,  224,  353,  224,  230,  228,  230,  224,  229,
-        0,  355,  230,  350,  224,  224,  229,  230,  352,  224,
-      229,  228,  356,  228,  224,  231,  229,  228,  228,  231,
-      353,    0,  230,  228,  230,  231,  229,  232,  355,  230,
-      357,  232,  358,  351,  230,  231,  360,  232,  233,  356,
-      233,  361,  231,  351,  362,  233,  231,  232,  233,  234,
-      233,  234,  231,    0,  232,    0,  234,  357,  232,  358,
-      351,  234,  231,  360,  232,  233,  363,  233,  361,  364,
-
-      351,  362,  233,    0,  232,  233,  234,  233,  234,  236,
-      235,  236,  235,  234,  366,  359,  236,  235,  234,  235,
-      237,  236,  235,  363,  237,  359,  364,    0,    0,    0,
-      237,    0,    0,    0,    0,  367,  236,  235,  236,  235,
-      237,  366,  359,  236,  235,  368,  235,  237,  236,  235,
-      238,  237,  359,  369,  238,  241,  240,  237,  240,  241,
-      238,  238,  367,  240,  370,  241,  371,  237,  240,  372,
-      238,    0,  368,    0,  242,  241,    0,  238,  242,    0,
-      369,  238,  241,  240,  242,  240,  241,  238,  238,    0,
-      240,  370,  241,  371,  242,  240,  372,  238,  239,  243,
-
-      243,  242,  241,  243,  373,  242,  239,  374,  239,  243,
-      246,  242,  246,  239,  239,    0,  246,  246,  239,  243,
-        0,  242,  246,  373,    0,  239,  243,  243,    0,    0,
-      243,  373,    0,  239,  374,  239,  243,  246,  257,  246,
-      239,  239,  257,  246,  246,  239,  243,  244,  257,  246,
-      373,  244,  247,  244,  247,  244,  260,  244,  257,  247,
-      260,  376,  377,    0,  247,  257,  260,  244,    0,  257,
-        0,    0,  378,    0,  244,  257,  260,  375,  244,  247,
-      244,  247,  244,  260,  244,  257,  247,  260,  376,  377,
-      375,  247,    0,  260,  244,  245,  379,  245,  248,  378,
-
-      248,  380,  381,  260,  375,  248,  245,  249,  245,  249,
-      248,  382,  383,  245,  249,  249,  384,  375,  245,  249,
-        0,  385,  245,  379,  245,  248,  386,  248,  380,  381,
-        0,    0,  248,  245,  249,  245,  249,  248,  382,  383,
-      245,  249,  249,  384,    0,  245,  249,  250,  385,  250,
-      251,    0,  251,  386,  250,  250,    0,  251,  250,  250,
-      252,    0,  251,  254,  387,  254,  389,    0,  390,    0,
-      254,  252,    0,  252,  250,  254,  250,  251,  252,  251,
-        0,  250,  250,  252,  251,  250,  250,  252,  253,  251,
-      254,  387,  254,  389,  253,  390,  253,  254,  252,  255,
-
-      252,  253,  254,    0,  391,  252,  253,  255,    0,  255,
-      252,    0,    0,  392,  255,  253,  393,  394,    0,  255,
-      395,  253,    0,  253,    0,  396,  255,  397,  253,    0,
-      256,  391,  256,  253,  255,  258,  255,  256,  256,  258,
-      392,  255,  256,  393,  394,  258,  255,  395,  258,  261,
-        0,  261,  396,  398,  397,  258,  261,  256,  399,  256,
-        0,  261,  258,  259,  256,  256,  258,  259,  401,  256,
-      403,  259,  258,    0,  263,  258,  261,  259,  261,  263,
-      398,  263,  258,  261,  405,  399,  263,  259,  261,    0,
-      259,  263,    0,    0,  259,  401,    0,  403,  259,    0,
-
-      402,  263,    0,    0,  259,  264,  263,  264,  263,  402,
-        0,  405,  264,  263,  259,  262,  264,  264,  263,  265,
-      262,  406,  407,  265,    0,  265,  262,  402,  262,  404,
-      265,  404,  264,  262,  264,  265,  402,  267,  262,  264,
-      408,  267,  262,  264,  264,  267,  265,  262,  406,  407,
-      265,  267,  265,  262,    0,  262,  404,  265,  404,  268,
-      262,  267,  265,  268,  267,  262,  266,  408,  267,  268,
-      409,  410,  267,  411,  413,  266,    0,  266,  267,  268,
-        0,  269,  266,  266,    0,  269,  268,  266,  267,  269,
-      268,    0,    0,  266,    0,  269,  268,  409,  410,  412,
-
-      411,  413,  266,  412,  266,  269,  268,  270,  269,  266,
-      266,  270,  269,  414,  266,  271,  269,  270,  272,  271,
-      270,  272,  269,  271,  544,  272,  412,  270,  545,  271,
-      412,  272,  269,    0,  270,    0,  546,  547,  270,  271,
-      414,  272,  271,  548,  270,  272,  271,  270,  272,  274,
-      271,  544,  272,  274,  270,  545,  271,    0,  272,  274,
-      273,  273,  273,  546,  547,  549,  271,  273,  272,  274,
-      548,  275,  273,  276,  550,  275,  274,  276,    0,  275,
-      274,  275,  551,  276,  276,    0,  274,  273,  273,  273,
-        0,  275,  549,  276,  273,    0,  274,  552,  275,  273,
-
-      276,  550,  275,  280,  276,  277,  275,  280,  275,  551,
-      276,  276,  277,  280,  554,  557,  279,  279,  275,  277,
-      276,  279,  277,  280,  552,  277,    0,  279,    0,    0,
-      280,  558,  277,    0,  280,    0,    0,  279,    0,  277,
-      280,  554,  557,  279,  279,  559,  277,  560,  279,  277,
-      280,    0,  277,  278,  279,  281,  278,  281,  558,  562,
-      278,  281,  281,  278,  279,  282,  278,  281,    0,  282,
-      563,  564,  559,    0,  560,  282,  278,    0,  282,  565,
-      278,  567,  281,  278,  281,  282,  562,  278,  281,  281,
-      278,  283,  282,  278,  281,  283,  282,  563,  564,    0,
-
-      284,  283,  282,  278,  284,  282,  565,  568,  567,  285,
-      284,  283,  282,  285,  422,  284,  422,  285,  283,  569,
-      284,  422,  283,  285,  570,  571,  422,  284,  283,  572,
-      573,  284,  574,  285,  568,    0,  285,  284,  283,    0,
-      285,  422,  284,  422,  285,    0,  569,  284,  422,    0,
-      285,  570,  571,  422,    0,    0,  572,  573,    0,  574,
-      285,  289,  289,  289,  289,  289,  289,  289,  289,  289,
-      289,  417,  417,  417,  417,  417,  417,  417,  417,  417,
-      417,  418,  419,  420,  421,  418,  419,  420,  421,  575,
-      578,  418,  419,  420,  421,    0,  579,  580,    0,  581,
-
-        0,  418,  419,  420,  421,    0,    0,    0,  418,  419,
-      420,  421,  418,  419,  420,  421,  575,  578,  418,  419,
-      420,  421,  424,  579,  580,  423,  581,  423,  418,  419,
-      420,  421,  423,  424,  425,  424,  425,  423,  426,    0,
-      424,  425,  426,    0,  582,  424,  425,    0,  426,  424,
-      583,    0,  423,  584,  423,  585,    0,    0,  426,  423,
-      424,  425,  424,  425,  423,  426,  427,  424,  425,  426,
-      427,  582,  424,  425,  428,  426,  427,  583,  428,  429,
-      584,  587,  585,  429,  428,  426,  427,    0,  430,  429,
-      430,  588,  428,  427,  428,  430,  589,  427,  590,  429,
-
-      430,  428,  431,  427,  431,  428,  429,  593,  587,  431,
-      429,  428,  594,  427,  431,  430,  429,  430,  588,  428,
-      433,  428,  430,  589,  433,  590,  429,  430,    0,  431,
-      433,  431,    0,  433,  593,    0,  431,    0,    0,  594,
-      433,  431,  432,    0,  432,  434,  596,  433,  432,  434,
-      598,  433,  599,    0,  432,  434,  600,  433,  435,  432,
-      433,  434,  435,    0,  432,  434,  435,  433,  435,  432,
-      437,  432,  434,  596,  437,  432,  434,  598,  435,  599,
-      437,  432,  434,  600,    0,  435,  432,    0,  434,  435,
-      437,  432,  434,  435,  436,  435,    0,  437,  436,    0,
-
-      601,  437,  438,  602,  436,  435,  438,  437,  603,  436,
-      438,  439,    0,  439,  436,    0,  438,  437,  439,  606,
-        0,  436,    0,  439,    0,  436,  438,  601,  604,  438,
-      602,  436,  610,  438,  612,  603,  436,  438,  439,  604,
-      439,  436,  440,  438,  440,  439,  606,  441,  440,  440,
-      439,  441,  613,  438,  440,  604,  442,  441,  442,  610,
-      615,  612,  617,  442,  618,    0,  604,  441,  442,  440,
-      443,  440,  443,    0,  441,  440,  440,  443,  441,  613,
-        0,  440,  443,  442,  441,  442,    0,  615,  444,  617,
-      442,  618,  444,  619,  441,  442,    0,  443,  444,  443,
-
-      616,  616,  445,  446,  443,  621,  445,  446,  444,  443,
-      445,    0,  622,  446,  623,  444,  445,  624,  446,  444,
-      619,    0,  626,  446,    0,  444,  445,  616,  616,  445,
-      446,    0,  621,  445,  446,  444,  447,  445,  447,  622,
-      446,  623,  447,  445,  624,  446,  627,  448,  447,  626,
-      446,  448,    0,  445,  629,    0,  449,  448,  447,    0,
-      449,  630,  631,  447,  632,  447,  449,  448,    0,  447,
-        0,  449,    0,  627,  448,  447,  449,    0,  448,  450,
-        0,  629,  450,  449,  448,  447,  450,  449,  630,  631,
-        0,  632,  450,  449,  448,  452,  634,  451,  449,  452,
-
-      453,  451,  450,  449,  453,  452,  450,  451,  451,  450,
-      453,  635,  636,  450,    0,  452,  637,  451,    0,  450,
-      453,  638,  452,  634,  451,  640,  452,  453,  451,  450,
-      641,  453,  452,    0,  451,  451,  454,  453,  635,  636,
-      454,  455,  452,  637,  451,  455,  454,  453,  638,  455,
-      456,    0,  640,    0,  456,  455,  454,  641,  642,  458,
-      456,  458,  459,  454,  459,  455,  458,  454,  455,  459,
-      456,  458,  455,  454,  459,    0,  455,  456,  457,    0,
-      457,  456,  455,  454,  457,  642,  458,  456,  458,  459,
-      457,  459,  455,  458,  643,  646,  459,  456,  458,    0,
-
-      457,  459,  460,  647,  460,  457,  462,  457,  460,  460,
-      462,  457,  648,  461,  460,  461,  462,  457,  649,  650,
-      461,  643,  646,  653,  463,  461,  462,  457,  463,  460,
-      647,  460,  463,  462,    0,  460,  460,  462,  463,  648,
-      461,  460,  461,  462,  654,  649,  650,  461,  463,  656,
-      653,  463,  461,  462,  464,  463,  464,  657,  658,  463,
-      465,  464,    0,  659,  465,  463,  464,  660,  465,  466,
-      465,  654,  661,  466,    0,  463,  656,  466,  662,  466,
-      465,  464,  663,  464,  657,  658,    0,  465,  464,  466,
-      659,  465,    0,  464,  660,  465,  466,  465,    0,  661,
-
-      466,  467,  468,  467,  466,  662,  466,  465,  467,  663,
-        0,  664,  468,  467,  468,  666,  466,    0,  668,  468,
-        0,    0,  670,    0,  468,  469,    0,  469,  467,  468,
-      467,    0,  469,    0,  469,  467,    0,  469,  664,  468,
-      467,  468,  666,  471,  470,  668,  468,  471,  470,  670,
-      470,  468,  469,  471,  469,  470,  802,    0,  472,  469,
-      470,  469,  472,  471,  469,    0,  804,    0,  472,    0,
-      471,  470,  806,  472,  471,  470,  807,  470,  472,    0,
-      471,  808,  470,  802,  473,  472,  809,  470,  473,  472,
-      471,    0,  474,  804,  473,  472,  474,  473,  474,  806,
-
-      472,    0,  474,  807,  473,  472,  475,    0,  808,    0,
-      475,  473,  474,  809,  810,  473,  475,    0,  476,  474,
-      811,  473,  476,  474,  473,  474,  475,    0,  476,  474,
-      477,  473,  478,  475,  477,  812,  478,  475,  476,  474,
-      477,  810,  478,  475,  479,  476,  813,  811,  479,  476,
-      477,    0,  478,  475,  479,  476,  480,  477,    0,  478,
-      480,  477,  812,  478,  479,  476,  480,  477,  814,  478,
-      816,  479,  480,  813,  817,  479,  480,  477,  481,  478,
-      481,  479,  482,  480,  482,  481,    0,  480,  818,  482,
-      481,  479,    0,  480,  482,  814,    0,  816,  819,  480,
-
-      484,  817,    0,  480,  484,  481,  483,  481,  483,  482,
-      484,  482,  481,  483,  483,  818,  482,  481,  483,  485,
-      484,  482,  488,  485,  488,  819,  488,  484,  820,  485,
-        0,  484,  488,  483,    0,  483,  821,  484,  823,  485,
-      483,  483,  488,  486,  486,  483,  485,  484,  486,  488,
-      485,  488,  824,  488,  486,  820,  485,  491,  489,  488,
-      489,  491,  489,  821,  486,  823,  485,  491,  489,  488,
-      486,  486,  491,    0,  825,  486,    0,  491,  489,  824,
-      826,  486,    0,  827,  491,  489,    0,  489,  491,  489,
-      828,  486,  487,  490,  491,  489,  487,  490,    0,  491,
-
-      487,  825,  487,  490,  491,  489,  487,  826,  829,  490,
-      827,    0,  830,  490,    0,    0,  487,  828,  492,  487,
-      490,  493,  492,  487,  490,  493,  831,  487,  492,  487,
-      490,  493,  832,  487,  492,  829,  490,  833,  492,  830,
-      490,  493,  494,  487,  836,  492,  494,    0,  493,  492,
-      494,  837,  493,  831,    0,  492,  494,  838,  493,  832,
-      495,  492,  495,    0,  833,  492,  494,  495,  493,  494,
-      839,  836,  495,  494,  496,    0,  496,  494,  837,    0,
-      496,  496,  840,  494,  838,    0,  496,  495,  497,  495,
-      497,  841,  498,  494,  495,  497,  498,  839,    0,  495,
-
-      497,  496,  498,  496,    0,  844,  499,  496,  496,  840,
-      499,  847,  498,  496,    0,  497,  499,  497,  841,  498,
-        0,  500,  497,  498,  848,  500,  499,  497,  502,  498,
-      502,  500,  844,  499,  500,  502,    0,  499,  847,  498,
-      502,  500,    0,  499,  850,  853,    0,  506,  500,  506,
-        0,  848,  500,  499,  506,  502,    0,  502,  500,  506,
-      856,  500,  502,  504,  504,  504,    0,  502,  500,  501,
-      504,  850,  853,  501,  506,  504,  506,  501,  857,    0,
-      858,  506,  849,  501,  859,  849,  506,  856,  501,  860,
-      504,  504,  504,  501,    0,  861,  501,  504,  864,  865,
-
-      501,  505,  504,    0,  501,  857,  505,  858,  505,  849,
-      501,  859,  849,  505,  866,  501,  860,  867,  505,  507,
-      501,  503,  861,  507,  868,  864,  865,    0,  505,  507,
-      503,    0,  503,  505,  503,  505,  870,  503,  871,  507,
-      505,  866,  503,    0,  867,  505,  507,    0,  503,  872,
-      507,  868,  874,    0,  508,    0,  507,  503,  508,  503,
-        0,  503,  508,  870,  503,  871,  507,  509,  508,  503,
-      510,  509,  875,  510,  510,    0,  872,  509,  508,  874,
-      510,  508,  509,    0,  511,  508,  511,  509,    0,  508,
-      510,  511,  876,    0,  509,  508,  511,  510,  509,  875,
-
-      510,  510,  513,    0,  509,  508,  513,  510,  512,  509,
-      512,  511,  513,  511,  509,  512,  877,  510,  511,  876,
-      512,  514,  513,  511,  515,  514,  516,  879,  515,  513,
-      516,  514,  880,  513,  515,  512,  516,  512,  520,  513,
-      520,  514,  512,  877,  515,  520,  516,  512,  514,  513,
-      520,  515,  514,  516,  879,  515,  517,  516,  514,  880,
-      517,  515,  881,  516,  882,  520,  517,  520,  514,  517,
-      518,  515,  520,  516,  518,  519,  517,  520,  883,  519,
-      518,  884,  885,  517,  886,  519,  519,  517,  518,  881,
-      518,  882,  521,  517,  521,  519,  517,  518,  887,  521,
-
-      521,  518,  519,  517,  521,  883,  519,  518,  884,  885,
-        0,  886,  519,  519,    0,  518,  522,  518,  522,  521,
-      889,  521,  519,  522,  522,  887,  521,  521,  522,  890,
-      523,  521,  523,  891,  524,  893,  524,  523,  524,  894,
-      895,  524,  523,  522,  998,  522,  524,  889,    0,    0,
-      522,  522,    0,    0,    0,  522,  890,  523,    0,  523,
-      891,  524,  893,  524,  523,  524,  894,  895,  524,  523,
-      525,  998,  525,  524,  526,  527,  526,  525,  525,  527,
-      528,  526,  525, 1000,  528,  527,  526,    0, 1002,    0,
-      528, 1003, 1004, 1005,    0,  527,    0,  525, 1007,  525,
-
-      528,  526,  527,  526,  525,  525,  527,  528,  526,  525,
-     1000,  528,  527,  526,  529, 1002,  529,  528, 1003, 1004,
-     1005,  529,  527,  530,  531, 1007,  529,  528,  531,    0,
-      530, 1009,  530,    0,  531, 1010, 1011,  530, 1012,    0,
-     1013,  529,  530,  529,  531, 1015, 1017,    0,  529,    0,
-      530,  531,    0,  529, 1019,  531,  532,  530, 1009,  530,
-      532,  531, 1010, 1011,  530, 1012,  532, 1013,  532,  530,
-      533,  531, 1015, 1017,  533,    0,  532,  535,  534,  535,
-      533, 1019,  534,  532,  535,    0,  534,  532, 1022,  535,
-      533,    0,  534,  532,    0,  532,    0,  533,    0,    0,
-
-        0,  533,  534,  532,  535,  534,  535,  533,    0,  534,
-     1024,  535,  537,  534, 1025, 1022,  535,  533,  536,  534,
-      536,  537, 1026,  537,  538,  536,  538,  536,  537,  534,
-      536,  538,    0,  537,    0,  538,  538, 1024, 1027,  537,
-        0, 1025, 1034,    0,    0,  536,    0,  536,  537, 1026,
-      537,  538,  536,  538,  536,  537, 1035,  536,  538,  539,
-      537,  539,  538,  538, 1036, 1027,  539,  539,  540, 1034,
-      540,  539, 1039,  541,  540,  540,    0,  541,    0,  541,
-      540, 1041,    0, 1035,  541,    0,  539,    0,  539,  541,
-     1043, 1036,    0,  539,  539,  540,    0,  540,  539, 1039,
-
-      541,  540,  540,  542,  541,  542,  541,  540, 1041,  542,
-      542,  541,  672, 1045,  672,  542,  541, 1043,  672,  672,
-        0,  673, 1046,  673,  672,    0,    0,  673,  673,    0,
-      542, 1047,  542,  673,    0,    0,  542,  542,    0,  672,
-     1045,  672,  542,  674,    0,  672,  672,  674,  673, 1046,
-      673,  672,  675,  674,  673,  673,  675, 1048, 1047,  677,
-      673,  677,  675,  674, 1049,  676,  677, 1050, 1052,  676,
-      674,  677,  675, 1053,  674,  676,    0,  678,  676,  675,
-      674,  678,    0,  675, 1048,  676,  677,  678,  677,  675,
-      674, 1049,  676,  677, 1050, 1052,  676,  678,  677,  675,
-
-     1053, 1054,  676,  680,  678,  676,    0,  680,  678,  679,
-        0,  679,  676,  680,  678,  681,  679, 1055,    0,  681,
-        0,  679,    0,  680,  678,  681, 1057, 1059, 1054, 1061,
-      680, 1062,    0,  682,  680,  681,  679,  682,  679, 1063,
-      680,  682,  681,  679, 1055,  683,  681,  682,  679,  683,
-      680, 1064,  681, 1057, 1059,  683, 1061,  682, 1062,  684,
-      682, 1065,  681,  684,  682,  683, 1063,  685,  682,  684,
-        0,  685,  683, 1070,  682,  685,  683, 1071, 1064,  684,
-        0,  685,  683, 1152,  682,  686,  684, 1156, 1065,  686,
-      684,  685,  683,  686,  685,  686,  684,  687,  685, 1157,
-
-     1070,  687,  685, 1160, 1071,  686,  684,  687,  685,    0,
-     1152,  689,  686,    0, 1156,  689,  686,  687,  685,    0,
-      686,  689,  686,  688,  687,  690, 1157,  688,  687,  690,
-     1160,  689,  686,  688,  687,  690,  688, 1161,  689,  691,
-      690,  691,  689,  688,  687,  690,  691, 1162,  689,  692,
-      688,  691,  690,  692,  688,    0,  690,    0,  689,  692,
-      688,  694,  690,  688, 1161,  694,  691,  690,  691,  692,
-      688,  694,  690,  691, 1162,  693,  692,    0,  691,  693,
-      692,  694,  695,    0,  695,  693,  692,  702,  694,  695,
-      693,  702,  694, 1166,  695,  693,  692,  702,  694,    0,
-
-     1169,    0,  693,  696,  696,  696,  693,  702,  694,  695,
-      696,  695,  693, 1170,  702,  696,  695,  693,  702,    0,
-     1166,  695,  693, 1173,  702, 1174,  697, 1169,  697, 1175,
-      696,  696,  696,  697,  702,  697, 1176,  696,  697,  698,
-     1170,  698,  696, 1179,    0, 1180,  698,  698, 1181,    0,
-     1173,  698, 1174,  697,    0,  697, 1175,    0,  699,    0,
-      697, 1184,  697, 1176, 1186,  697,  698, 1187,  698,  699,
-     1179,  699, 1180,  698,  698, 1181,  699,  700,  698,  700,
-        0,  699, 1188,  700,  700,  699,  701, 1189, 1184,  700,
-     1190, 1186,    0,    0, 1187,  701,  699,  701,  699,    0,
-
-     1240, 1243,  701,  699,  700, 1247,  700,  701,  699, 1188,
-      700,  700,    0,  701, 1189, 1248,  700, 1190,  703,  704,
-      703,  704,  701, 1251,  701,  703,  704, 1240, 1243,  701,
-      703,  704, 1247, 1252,  701, 1241, 1241,  705,    0,  705,
-     1253, 1254, 1248,    0,  705,  703,  704,  703,  704,  705,
-     1251, 1258,  703,  704,    0,  706, 1259,  703,  704, 1260,
-     1252, 1262,    0,  706,  705,  706,  705, 1253, 1254, 1289,
-      706,  705, 1290, 1241, 1293,  706,  705,  707, 1258,  707,
-        0,  707,  706, 1259,  707,    0, 1260,    0, 1262,  707,
-      706,  708,  706,  708,    0,  708, 1289,  706,  708, 1290,
-
-     1241, 1293,  706,  708,  707,  709,  707,  709,  707, 1296,
-        0,  707,  709, 1299,  709,    0,  707,  709,  708,  710,
-      708,  710,  708,    0,  711,  708,  710,  710,    0, 1303,
-      708,  710,  709,    0,  709,  711, 1296,  711,    0,  709,
-     1299,  709,  711, 1317,  709,  713,  710,  711,  710,  713,
-      712,  711,    0,  710,  710,  713, 1303, 1321,  710, 1316,
-     1316,  712,  711,  712,  711,  713,    0,    0,  712,  711,
-     1317,  714,  713,  712,  711,  714,  713,  712,    0,  715,
-     1324,  714,  713,  715, 1321, 1330,    0, 1334,  712,  715,
-      712,  714,  713,  716,  715,  712,    0,  716,  714,  715,
-
-      712, 1316,  714,  716,    0,  717,  715, 1324,  714,  717,
-      715, 1338, 1330,  716, 1334,  717,  715, 1340,  714,  718,
-      716,  715,    0,  718,  716,  717,  715,  718, 1316, 1342,
-      716,  719,  717,  718,    0,  719,  717, 1344, 1338, 1346,
-      716,  719,  717,  718, 1340,  720,  718, 1348,    0,  720,
-      718,  719,  717,  721,  718,  720, 1342,  721,  719,    0,
-      718,  721,  719, 1350, 1344,  720, 1346,  721,  719,    0,
-      718, 1352,  720,    0, 1348,  722,  720,  721,  719,  722,
-      721, 1354,  720,  723,  721,  722,  722,  723,  721,  724,
-     1350,  724,  720,  723,  721,  722,  724,    0, 1352, 1323,
-
-     1323,  724,  722,  723,  721,    0,  722, 1356, 1354,    0,
-      723,  727,  722,  722,  723,  727,  724,  725,  724,  725,
-      723,  727,  722,  724,  725,  726,    0,  726,  724,  725,
-      723,  727,  726,  729, 1356,  729,    0,  726,  727,    0,
-      729, 1323,  727,    0,  725,  729,  725,    0,  727,    0,
-        0,  725,  726,  728,  726,    0,  725,  728,  727,  726,
-      729,    0,  729,  728,  726,    0,  728,  729, 1323,  730,
-        0,  730,  729,  728,    0,  730,  730,    0,    0,    0,
-      728,  730, 1265, 1265,  728,  731,    0,  731,    0,    0,
-      728,  731,  731,  728,    0,    0,  730,  731,  730,  733,
-
-      728,  733,  730,  730,    0,    0,  733,    0,  730,    0,
-        0,  733,  731,    0,  731,    0,    0,    0,  731,  731,
-     1265,    0,    0,    0,  731,  732,  733,  734,  733,  734,
-      732,    0,  732,  733,  734,    0,  732,  732,  733,  734,
-        0,  735,  732,  735,    0,    0,    0, 1265,  735,    0,
-        0,    0,  732,  735,  734,    0,  734,  732,    0,  732,
-      736,  734,  736,  732,  732,    0,  734,  736,  735,  732,
-      735,  737,  736,  737,  738,  735,  738,    0,  737,    0,
-      735,  738,  738,  737,    0,    0,  738,  736,    0,  736,
-      739,    0,  739,    0,  736,    0,    0,  739,  737,  736,
-
-      737,  738,  739,  738,  740,  737,  740,    0,  738,  738,
-      737,  740,    0,  738,    0,    0,  740,  739,    0,  739,
-        0,    0,  741,    0,  739,    0,  741,    0,    0,  739,
-      742,  740,  741,  740,  742,  743,    0,    0,  740,  743,
-      742,    0,  741,  740,  744,  743,  744,    0,    0,  741,
-      742,  744,  744,  741,  745,  743,  744,  742,  745,  741,
-      745,  742,  743,    0,    0,  745,  743,  742,    0,  741,
-      745,  744,  743,  744,    0,    0,    0,  742,  744,  744,
-        0,  745,  743,  744,  746,  745,  746,  745,    0,  747,
-      746,  746,  745,  747,  748,    0,  746,  745,  748,  747,
-
-      749,    0,  749,  769,  748,  769,  749,    0,    0,  747,
-      769,  746,  749,  746,  748,  769,  747,  746,  746,    0,
-      747,  748,  749,  746,  750,  748,  747,  749,  750,  749,
-      769,  748,  769,  749,  750,    0,  747,  769,    0,  749,
-        0,  748,  769,  751,  750,    0,    0,  751,    0,  749,
-        0,  750,    0,  751,    0,  750,  751,  774,    0,  774,
-        0,  750,  752,  751,  774,    0,  752,    0,    0,  774,
-      751,  750,  752,    0,  751,  752,    0,  753,    0,    0,
-      751,  753,  752,  751,  774,    0,  774,  753,    0,  752,
-      751,  774,    0,  752,    0,    0,  774,  753,    0,  752,
-
-        0,    0,  752,  754,  753,    0,  755,  754,  753,  752,
-      755,  754,    0,  754,  753,  756,  755,    0,    0,  756,
-        0,    0,    0,  754,  753,  756,  755,    0,    0,    0,
-      754,    0,    0,  755,  754,  756,    0,  755,  754,    0,
-      754,  757,  756,  755,    0,  757,  756,    0,    0,    0,
-      754,  757,  756,  755,    0,  758,  759,    0,    0,  758,
-      759,  757,  756,  758,  759,    0,    0,    0,  757,  758,
-      759,    0,  757,    0,    0,    0,    0,    0,  757,  758,
-      759,    0,  758,  759,    0,  760,  758,  759,  757,  760,
-      758,  759,    0,    0,  761,  760,  758,  759,  761,    0,
-
-        0,    0,    0,    0,  761,  760,  758,  759,    0,    0,
-        0,    0,  760,  762,  761,    0,  760,  762,    0,    0,
-        0,  761,  760,  762,    0,  761,  762,    0,    0,    0,
-        0,  761,  760,  762,    0,  763,    0,    0,  764,  763,
-      762,  761,  764,  763,  762,  763,    0,    0,  764,    0,
-      762,  764,    0,  762,    0,  763,    0,    0,  764,    0,
-      762,    0,  763,    0,  765,  764,  763,  767,  765,  764,
-      763,  767,  763,  766,  765,  764,  766,  767,  764,  765,
-      766,    0,  763,    0,  765,  764,  766,  767,    0,  768,
-        0,  765,    0,  768,  767,  765,  766,  768,  767,  768,
-
-      766,  765,    0,  766,  767,    0,  765,  766,    0,  768,
-        0,  765,    0,  766,  767,  771,  768,    0,  770,  771,
-      768,    0,    0,  766,  768,  771,  768,  770,  772,  770,
-        0,    0,  772,  773,  770,  771,  768,  773,  772,  770,
-        0,    0,  771,  773,    0,  770,  771,  775,  772,    0,
-        0,  775,  771,  773,  770,  772,  770,  775,    0,  772,
-      773,  770,  771,    0,  773,  772,  770,  775,    0,  776,
-      773,    0,  777,  776,  775,  772,  777,  778,  775,  776,
-      773,  778,  777,    0,  775,    0,    0,  778,    0,  776,
-        0,  779,  777,    0,  775,  779,  776,  778,    0,  777,
-
-      776,  779,    0,  777,  778,    0,  776,    0,  778,  777,
-        0,  779,    0,  780,  778,    0,  776,  780,  779,  777,
-        0,    0,  779,  780,  778,  781,    0,  781,  779,  782,
-        0,  782,  781,  780,    0,    0,  782,  781,  779,    0,
-      780,  782,    0,    0,  780,    0,    0,    0,    0,    0,
-      780,    0,  781,    0,  781,  783,  782,  783,  782,  781,
-      780,    0,  783,  782,  781,  784,    0,  783,  782,    0,
-        0,  785,    0,  785,  784,  791,  784,    0,  785,  791,
-      785,  784,  783,  785,  783,  791,  784,    0,    0,  783,
-        0,    0,  784,    0,  783,  791,    0,  786,  785,  786,
-
-      785,  784,  791,  784,  786,  785,  791,  785,  784,  786,
-      785,    0,  791,  784,    0,    0,  787,    0,  787,  788,
-        0,    0,  791,  787,  786,  787,  786,  789,  787,  789,
-      788,  786,  788,    0,  789,  789,  786,  788,    0,  789,
-        0,    0,  788,  787,    0,  787,  788,    0,    0,    0,
-      787,    0,  787,  790,  789,  787,  789,  788,  790,  788,
-      790,  789,  789,  793,  788,  790,  789,  793,  792,  788,
-      790,  792,  792,  793,    0,    0,    0,    0,  792,    0,
-      790,    0,    0,  793,    0,  790,    0,  790,  792,    0,
-      793,    0,  790,    0,  793,  792,    0,  790,  792,  792,
-
-      793,    0,  794,  795,  796,  792,  794,  795,  796,    0,
-      793,    0,  794,  795,  796,  792,  797,    0,  794,    0,
-      797,    0,  794,  795,  796,  798,  797,  798,    0,  794,
-      795,  796,  798,  794,  795,  796,  797,  798,    0,  794,
-      795,  796,    0,  797,    0,  794,    0,  797,    0,  794,
-      795,  796,  798,  797,  798,  899,    0,  899,  900,  798,
-      900,    0,  899,  797,  798,  900,  901,  899,  901,  902,
-      900,  902,    0,  901,    0,    0,  902,    0,  901,    0,
-      901,  902,  899,    0,  899,  900,    0,  900,    0,  899,
-        0,    0,  900,  901,  899,  901,  902,  900,  902,    0,
-
-      901,    0,  903,  902,    0,  901,  903,  901,  902,    0,
-      904,  905,  903,    0,  904,  905,    0,    0,    0,    0,
-      904,  905,  903,    0,    0,    0,    0,    0,    0,  903,
-      904,  905,    0,  903,    0,    0,  906,  904,  905,  903,
-      906,  904,  905,    0,    0,    0,  906,  904,  905,  903,
-        0,  906,    0,    0,  908,  908,  906,  904,  905,  908,
-      907,    0,    0,  906,  907,  908,    0,  906,  907,    0,
-        0,    0,    0,  906,  907,  908,    0,    0,  906,    0,
-        0,  908,  908,  906,  907,    0,  908,  907,  909,    0,
-      909,  907,  908,    0,  909,  907,  910,  911,  910,  911,
-
-      909,  907,  908,  910,  911,  911,    0,    0,  910,  911,
-      909,  907,    0,    0,    0,  909,    0,  909,  912,    0,
-        0,  909,  912,  910,  911,  910,  911,  909,  912,    0,
-      910,  911,  911,    0,    0,  910,  911,  909,  912,    0,
-      913,  915,  914,  915,  913,  912,  914,    0,  915,  912,
-      913,    0,  914,  915,  916,  912,    0,    0,  916,    0,
-      913,    0,  914,    0,  916,  912,    0,  913,  915,  914,
-      915,  913,  917,  914,  916,  915,  917,  913,    0,  914,
-      915,  916,  917,    0,    0,  916,  918,  913,    0,  914,
-      918,  916,  917,    0,  918,  919,    0,  919,    0,  917,
-
-      918,  916,  919,  917,    0,    0,    0,  919,  920,  917,
-      918,    0,  920,  918,    0,    0,  921,  918,  920,  917,
-      921,  918,  919,    0,  919,    0,  921,  918,  920,  919,
-        0,    0,    0,    0,  919,  920,  921,  918,  922,  920,
-        0,    0,  922,  921,    0,  920,  923,  921,  922,    0,
-      923,    0,  924,  921,  924,  920,  923,    0,  922,  924,
-        0,  923,    0,  921,  924,  922,  923,    0,    0,  922,
-      925,    0,  926,  923,  925,  922,  926,  923,    0,  924,
-      925,  924,  926,  923,    0,  922,  924,    0,  923,    0,
-      925,  924,  926,  923,  927,    0,  928,  925,  927,  926,
-
-      928,  925,    0,  926,  927,    0,  928,  925,    0,  926,
-        0,  928,    0,    0,  927,    0,  928,  925,    0,  926,
-      929,  927,    0,  928,  929,  927,    0,  928,    0,    0,
-      929,  927,  930,  928,  930,  929,    0,    0,  928,  930,
-      929,  927,    0,  928,  930,  931,  932,  929,  932,  931,
-      933,  929,  932,    0,  933,  931,    0,  929,  932,  930,
-      933,  930,  929,    0,    0,  931,  930,  929,  932,    0,
-      933,  930,  931,  932,  934,  932,  931,  933,  934,  932,
-        0,  933,  931,    0,  934,  932,  935,  933,    0,  936,
-      935,  936,  931,  936,  934,  932,  935,  933,    0,  936,
-
-      938,  934,  938,    0,  935,  934,  935,  938,    0,  936,
-        0,  934,  938,  935,    0,  937,  936,  935,  936,  937,
-      936,  934,    0,  935,    0,  937,  936,  938,    0,  938,
-      937,  935,    0,  935,  938,  937,  936,    0,  939,  938,
-      939,  941,  937,  941,  940,  939,  937,    0,  941,  940,
-      939,  940,  937,  941,    0,    0,  940,  937,    0,    0,
-        0,  940,  937,    0,    0,  939,    0,  939,  941,    0,
-      941,  940,  939,    0,    0,  941,  940,  939,  940,  942,
-      941,  942,  943,  940,  943,  944,  942,  944,  940,  943,
-      943,  942,  944,  945,  943,  945,    0,  944,    0,    0,
-
-      945,    0,    0,    0,    0,  945,  942,    0,  942,  943,
-        0,  943,  944,  942,  944,    0,  943,  943,  942,  944,
-      945,  943,  945,  946,  944,  946,    0,  945,    0,  947,
-      946,  946,  945,  947,  948,  946,  948,    0,    0,  947,
-        0,  948,    0,    0,  948,    0,  948,    0,    0,  947,
-      946,    0,  946,    0,    0,    0,  947,  946,  946,    0,
-      947,  948,  946,  948,    0,  949,  947,  949,  948,    0,
-        0,  948,  949,  948,    0,    0,  947,  949,  950,  951,
-      950,  951,    0,    0,    0,  950,  951,    0,    0,    0,
-      950,  951,  949,    0,  949,    0,    0,    0,    0,  949,
-
-        0,  952,    0,    0,  949,  950,  951,  950,  951,  952,
-        0,  952,  950,  951,    0,    0,  952,  950,  951,    0,
-      953,  952,  953,  954,    0,  954,    0,  953,  952,    0,
-      954,    0,  953,    0,    0,  954,  952,    0,  952,    0,
-        0,  955,    0,  952,    0,  955,    0,  953,  952,  953,
-      954,  955,  954,  956,  953,  956,  957,  954,    0,  953,
-      956,  955,  954,    0,    0,  956,    0,  957,  955,  957,
-        0,    0,  955,    0,  957,    0,    0,    0,  955,  957,
-      956,    0,  956,  957,    0,    0,    0,  956,  955,    0,
-        0,  958,  956,  958,  957,    0,  957,    0,  958,  958,
-
-      960,  957,  960,  958,    0,  959,  957,  960,  960,  959,
-        0,  959,  960,    0,    0,    0,  959,    0,  958,    0,
-      958,  959,    0,    0,    0,  958,  958,  960,    0,  960,
-      958,    0,  959,    0,  960,  960,  959,    0,  959,  960,
-      961,    0,  961,  959,  962,  963,  962,  961,  959,  963,
-        0,  962,  961,    0,    0,  963,  962,    0,    0,    0,
-      964,    0,    0,    0,  964,  963,    0,  961,    0,  961,
-      964,  962,  963,  962,  961,  964,  963,    0,  962,  961,
-      964,    0,  963,  962,  965,  965,  966,  964,    0,  965,
-      966,  964,  963,    0,    0,  965,  966,  964,    0,  966,
-
-        0,    0,  964,    0,    0,  965,  966,  964,    0,    0,
-        0,  965,  965,  966,  967,  968,  965,  966,  967,  968,
-        0,    0,  965,  966,  967,  968,  966,  967,    0,    0,
-        0,    0,  965,  966,  967,  968,    0,    0,    0,  969,
-      970,  967,  968,  969,  970,  967,  968,    0,    0,  969,
-      970,  967,  968,  971,  967,    0,    0,  971,    0,  969,
-      970,  967,  968,  971,  973,  972,  969,  970,  973,  972,
-      969,  970,  973,  971,    0,  972,  969,  970,  973,    0,
-      971,    0,    0,    0,  971,  972,  969,  970,  973,  974,
-      971,  973,  972,  974,  976,  973,  972,  974,  976,  973,
-
-      971,    0,  972,  974,  976,  973,  975,  975,    0,  976,
-        0,  975,  972,  974,  976,  973,  974,  975,    0,  977,
-      974,  976,  978,  977,  974,  976,  978,  975,    0,  977,
-      974,  976,  978,  975,  975,    0,  976,    0,  975,  977,
-      974,  976,  978,    0,  975,    0,  977,  979,  979,  978,
-      977,    0,  979,  978,  975,    0,  977,  980,  979,  978,
-      981,  980,  981,    0,    0,  980,  977,  981,  979,  978,
-        0,  980,  981,    0,  979,  979,    0,    0,    0,  979,
-        0,  980,    0,    0,  980,  979,    0,  981,  980,  981,
-        0,    0,  980,    0,  981,  979,    0,    0,  980,  981,
-
-      982,    0,  982,  983,    0,  983,  982,  982,  980,    0,
-      983,  983,  982,  984,    0,  983,  986,    0,  986,    0,
-        0,    0,    0,  986,  984,    0,  984,  982,  986,  982,
-      983,  984,  983,  982,  982,    0,  984,  983,  983,  982,
-      984,  985,  983,  986,    0,  986,    0,    0,    0,    0,
-      986,  984,  985,  984,  985,  986,    0,    0,  984,  985,
-      987,    0,  987,  984,  985,  988,    0,  987,  985,  988,
-      990,    0,  987,    0,  990,  988,    0,  989,  989,  985,
-      990,  985,  989,    0,    0,  988,  985,  987,  989,  987,
-      990,  985,  988,    0,  987,    0,  988,  990,  989,  987,
-
-        0,  990,  988,    0,  989,  989,  991,  990,    0,  989,
-      991,  992,  988,  992,    0,  989,  991,  990,  992,    0,
-        0,  993,    0,  992,    0,  989,  991,    0,    0,    0,
-        0,    0,  993,  991,  993,    0,    0,  991,  992,  993,
-      992,    0,    0,  991,  993,  992,    0,  994,  993,    0,
-      992,    0,    0,  991,    0,  995,    0,  995,  994,  993,
-      994,  993,  995,    0,    0,  994,  993,  995,    0,    0,
-      994,  993,    0,    0,  994,    0,  996,    0,  996,    0,
-        0,    0,  995,  996,  995,  994, 1073,  994,  996,  995,
-     1073, 1074,  994,    0,  995, 1074, 1073,  994,    0,    0,
-
-     1075, 1074, 1075,  996,    0,  996, 1073, 1075,    0,    0,
-      996, 1074, 1075, 1073, 1076,  996, 1076, 1073, 1074,    0,
-        0, 1076, 1074, 1073,    0,    0, 1076, 1075, 1074, 1075,
-     1077,    0, 1077, 1073, 1075,    0, 1078, 1077, 1074, 1075,
-     1078, 1076, 1077, 1076,    0, 1079, 1078,    0, 1076, 1079,
-        0,    0,    0, 1076,    0, 1079, 1078, 1077,    0, 1077,
-     1079,    0,    0, 1078, 1077, 1079,    0, 1078, 1080, 1077,
-     1080,    0, 1079, 1078,    0, 1080, 1079, 1081,    0, 1081,
-     1080,    0, 1079, 1078, 1081,    0, 1082, 1079, 1082, 1081,
-        0,    0, 1079, 1082,    0, 1080,    0, 1080, 1082,    0,
-
-        0,    0, 1080,    0, 1081,    0, 1081, 1080,    0,    0,
-     1083, 1081, 1083, 1082,    0, 1082, 1081, 1083,    0, 1084,
-     1082, 1084, 1083,    0,    0, 1082, 1084, 1084, 1085, 1085,
-     1085, 1084,    0,    0,    0, 1085,    0, 1083,    0, 1083,
-     1085,    0,    0,    0, 1083,    0, 1084,    0, 1084, 1083,
-     1086,    0,    0, 1084, 1084, 1085, 1085, 1085, 1084, 1086,
-        0, 1086, 1085, 1087,    0, 1087, 1086, 1085,    0,    0,
-     1087, 1086, 1088,    0, 1088, 1087,    0, 1086,    0, 1088,
-     1088,    0,    0,    0, 1088,    0, 1086,    0, 1086,    0,
-     1087,    0, 1087, 1086,    0,    0,    0, 1087, 1086, 1088,
-
-        0, 1088, 1087, 1089, 1090, 1089, 1088, 1088,    0,    0,
-     1089, 1088,    0,    0, 1090, 1089, 1090, 1091,    0, 1091,
-        0, 1090,    0,    0, 1091,    0, 1090,    0,    0, 1091,
-     1089, 1090, 1089,    0,    0,    0, 1092, 1089,    0,    0,
-        0, 1090, 1089, 1090, 1091, 1092, 1091, 1092, 1090,    0,
-        0, 1091, 1092, 1090,    0,    0, 1091, 1092, 1093, 1094,
-     1093, 1094,    0, 1092,    0, 1093, 1094,    0,    0,    0,
-     1093, 1094, 1092,    0, 1092,    0,    0,    0,    0, 1092,
-        0,    0,    0,    0, 1092, 1093, 1094, 1093, 1094, 1095,
-        0, 1095, 1093, 1094,    0, 1097, 1095, 1093, 1094, 1097,
-
-     1096, 1095, 1096,    0, 1098, 1097,    0, 1096, 1098,    0,
-        0,    0, 1096,    0, 1098, 1097, 1095,    0, 1095,    0,
-        0,    0, 1097, 1095, 1098,    0, 1097, 1096, 1095, 1096,
-        0, 1098, 1097,    0, 1096, 1098, 1099,    0, 1099, 1096,
-     1101, 1098, 1097, 1099, 1101, 1100,    0, 1100, 1099,    0,
-     1101, 1098, 1100, 1100, 1102,    0, 1102, 1100,    0,    0,
-     1101, 1102,    0, 1099,    0, 1099, 1102, 1101,    0,    0,
-     1099, 1101, 1100,    0, 1100, 1099,    0, 1101,    0, 1100,
-     1100, 1102,    0, 1102, 1100,    0,    0, 1101, 1102, 1103,
-     1104, 1103, 1104, 1102,    0,    0, 1103, 1104, 1105,    0,
-
-     1105, 1103, 1104,    0,    0, 1105,    0,    0,    0,    0,
-     1105,    0,    0,    0,    0,    0, 1103, 1104, 1103, 1104,
-        0,    0,    0, 1103, 1104, 1105,    0, 1105, 1103, 1104,
-        0, 1106, 1105, 1106, 1107,    0, 1107, 1105, 1106,    0,
-     1108, 1107, 1108, 1106,    0,    0, 1107, 1108,    0,    0,
-        0,    0, 1108,    0,    0,    0,    0,    0, 1106,    0,
-     1106, 1107,    0, 1107,    0, 1106,    0, 1108, 1107, 1108,
-     1106,    0,    0, 1107, 1108, 1109, 1110, 1109,    0, 1108,
-     1110, 1109, 1109,    0,    0,    0, 1110, 1109,    0,    0,
-     1112, 1111,    0,    0, 1112, 1111, 1110,    0,    0, 1111,
-
-     1112,    0, 1109, 1110, 1109, 1111,    0, 1110, 1109, 1109,
-     1112,    0,    0, 1110, 1109, 1111,    0, 1112, 1111,    0,
-     1113, 1112, 1111, 1110, 1113,    0, 1111, 1112,    0, 1114,
-     1113, 1114, 1111,    0,    0,    0, 1114, 1112,    0,    0,
-     1113, 1114, 1111, 1115,    0, 1115,    0, 1113,    0,    0,
-     1115, 1113, 1116,    0, 1116, 1115, 1114, 1113, 1114, 1116,
-        0,    0,    0, 1114, 1116,    0,    0, 1113, 1114,    0,
-     1115, 1117, 1115, 1117, 1118,    0,    0, 1115, 1117, 1116,
-        0, 1116, 1115, 1117,    0, 1118, 1116, 1118,    0,    0,
-        0, 1116, 1118,    0,    0,    0,    0, 1118, 1117,    0,
-
-     1117, 1118,    0,    0, 1119, 1117, 1119,    0,    0,    0,
-     1117, 1119, 1118, 1120, 1118, 1120, 1119,    0,    0, 1118,
-     1120, 1120,    0,    0, 1118, 1120, 1121,    0,    0,    0,
-     1121, 1119,    0, 1119,    0, 1122, 1121,    0, 1119, 1122,
-     1120,    0, 1120, 1119,    0, 1122, 1121, 1120, 1120, 1125,
-     1123, 1125, 1120, 1121, 1123, 1122, 1125, 1121,    0,    0,
-     1123, 1125, 1122, 1121, 1124,    0, 1122,    0, 1124,    0,
-     1123,    0, 1122, 1121, 1124,    0, 1125, 1123, 1125,    0,
-        0, 1123, 1122, 1125, 1124,    0,    0, 1123, 1125, 1127,
-        0, 1124, 1126,    0, 1126, 1124,    0, 1123, 1127, 1126,
-
-     1127, 1124,    0,    0, 1126, 1127,    0,    0,    0,    0,
-     1127, 1124,    0, 1128,    0,    0, 1127,    0,    0, 1126,
-        0, 1126, 1128,    0, 1128, 1127, 1126, 1127,    0, 1128,
-        0, 1126, 1127,    0, 1128,    0, 1129, 1127, 1129,    0,
-     1128,    0,    0, 1129,    0, 1130,    0, 1130, 1129, 1128,
-        0, 1128, 1130,    0,    0,    0, 1128, 1130,    0,    0,
-        0, 1128,    0, 1129, 1131, 1129, 1131,    0,    0,    0,
-     1129, 1131, 1130,    0, 1130, 1129, 1131,    0, 1132, 1130,
-     1132,    0,    0,    0, 1130, 1132,    0, 1133,    0, 1133,
-     1132, 1131,    0, 1131, 1133,    0,    0,    0, 1131, 1133,
-
-        0,    0,    0, 1131,    0, 1132, 1134, 1132, 1134,    0,
-        0,    0, 1132, 1134, 1133,    0, 1133, 1132, 1134,    0,
-     1135, 1133, 1135, 1136,    0,    0, 1133, 1135,    0,    0,
-        0,    0, 1135, 1134, 1136, 1134, 1136,    0,    0,    0,
-     1134, 1136, 1137,    0,    0, 1134, 1136, 1135,    0, 1135,
-     1136,    0,    0, 1137, 1135, 1137,    0,    0,    0, 1135,
-     1137, 1136,    0, 1136,    0, 1137,    0, 1138, 1136, 1137,
-        0,    0,    0, 1136,    0,    0, 1138, 1139, 1138, 1139,
-     1137,    0, 1137, 1138, 1139, 1139,    0, 1137, 1138, 1139,
-        0,    0, 1137,    0, 1138,    0,    0,    0,    0, 1140,
-
-        0,    0,    0, 1138, 1139, 1138, 1139, 1140,    0, 1140,
-     1138, 1139, 1139,    0, 1140, 1138, 1139,    0, 1141, 1140,
-     1141, 1142,    0, 1142,    0, 1141, 1140,    0, 1142,    0,
-     1141,    0,    0, 1142, 1140,    0, 1140, 1143,    0, 1143,
-        0, 1140,    0,    0, 1143, 1141, 1140, 1141, 1142, 1143,
-     1142, 1144, 1141, 1144,    0, 1142,    0, 1141, 1144,    0,
-     1142,    0,    0, 1144, 1143,    0, 1143, 1145,    0, 1145,
-     1146, 1143, 1146, 1145, 1145,    0, 1143, 1146, 1144, 1145,
-     1144, 1194, 1146, 1194,    0, 1144,    0,    0, 1194,    0,
-     1144,    0,    0, 1194, 1145,    0, 1145, 1146,    0, 1146,
-
-     1145, 1145,    0,    0, 1146, 1195, 1145, 1195, 1194, 1146,
-     1194, 1196, 1195, 1196, 1197, 1194, 1197, 1195, 1196,    0,
-     1194, 1197,    0, 1196,    0,    0, 1197, 1198,    0,    0,
-        0, 1198, 1195,    0, 1195,    0,    0, 1198, 1196, 1195,
-     1196, 1197, 1199, 1197, 1195, 1196, 1199, 1198, 1197,    0,
-     1196, 1200, 1199, 1197, 1198, 1200, 1201, 1201, 1198,    0,
-        0, 1200, 1199,    0, 1198,    0, 1202,    0,    0, 1199,
-     1202, 1200,    0, 1199, 1198,    0, 1202,    0, 1200, 1199,
-        0, 1201, 1200,    0,    0, 1201, 1202,    0, 1200, 1199,
-        0, 1201, 1203, 1202,    0, 1204, 1203, 1202, 1200, 1204,
-
-     1203, 1201,    0, 1202,    0, 1204, 1203,    0, 1201,    0,
-     1205,    0, 1201, 1202, 1205, 1204, 1203,    0, 1201, 1203,
-     1205,    0, 1204, 1203,    0, 1206, 1204, 1203, 1201, 1206,
-     1205,    0, 1204, 1203, 1207, 1206,    0, 1205, 1207,    0,
-        0, 1205, 1204, 1203, 1207, 1206, 1212, 1205, 1212, 1207,
-        0,    0, 1206, 1212, 1207,    0, 1206, 1205, 1212, 1209,
-        0, 1207, 1206, 1209, 1208, 1207, 1208,    0, 1208, 1209,
-        0, 1207, 1206, 1212, 1208, 1212, 1207,    0, 1210, 1209,
-     1212, 1207, 1210,    0, 1208, 1212, 1209, 1213, 1210, 1213,
-     1209, 1208,    0, 1208, 1213, 1208, 1209,    0, 1210, 1213,
-
-     1211, 1208,    0,    0, 1211, 1210, 1209,    0,    0, 1210,
-     1211, 1208,    0,    0, 1213, 1210, 1213, 1214,    0, 1214,
-     1211, 1213,    0,    0, 1214, 1210, 1213, 1211, 1216, 1214,
-     1216, 1211, 1215,    0,    0, 1216,    0, 1211,    0,    0,
-     1216, 1215,    0, 1215, 1214,    0, 1214, 1211, 1215,    0,
-        0, 1214,    0, 1215,    0, 1216, 1214, 1216,    0, 1215,
-        0,    0, 1216,    0, 1217,    0, 1217, 1216, 1215,    0,
-     1215, 1217, 1218,    0, 1218, 1215, 1217, 1220,    0, 1218,
-     1215, 1220, 1221, 1219, 1218, 1219, 1221, 1220,    0, 1219,
-     1219, 1217, 1221, 1217,    0, 1219,    0, 1220, 1217, 1218,
-
-        0, 1218, 1221, 1217, 1220,    0, 1218,    0, 1220, 1221,
-     1219, 1218, 1219, 1221, 1220,    0, 1219, 1219, 1222, 1221,
-     1222, 1223, 1219, 1223, 1220, 1222,    0,    0, 1223, 1221,
-     1222,    0, 1224, 1223, 1224,    0,    0,    0,    0, 1224,
-        0,    0, 1225,    0, 1224, 1222,    0, 1222, 1223,    0,
-     1223, 1225, 1222, 1225,    0, 1223,    0, 1222, 1225, 1224,
-     1223, 1224,    0, 1225,    0, 1226, 1224, 1226,    0, 1225,
-        0, 1224, 1226, 1226,    0,    0,    0, 1226, 1225,    0,
-     1225,    0,    0, 1227, 1227, 1225, 1227,    0,    0,    0,
-     1225, 1227, 1226,    0, 1226, 1228, 1227, 1228,    0, 1226,
-
-     1226,    0, 1228,    0, 1226,    0,    0, 1228,    0,    0,
-     1227, 1227,    0, 1227, 1229,    0, 1229,    0, 1227,    0,
-        0, 1229, 1228, 1227, 1228, 1230, 1229, 1230, 1231, 1228,
-     1231,    0, 1230, 1230, 1228, 1231,    0, 1230,    0,    0,
-     1231, 1229,    0, 1229, 1232,    0, 1232,    0, 1229,    0,
-     1232, 1232, 1230, 1229, 1230, 1231, 1232, 1231,    0, 1230,
-     1230,    0, 1231,    0, 1230,    0,    0, 1231, 1233, 1233,
-     1233, 1232,    0, 1232, 1234, 1233, 1234, 1232, 1232,    0,
-     1233, 1234, 1234, 1232, 1235,    0, 1234,    0, 1235,    0,
-        0,    0,    0,    0, 1235, 1233, 1233, 1233,    0,    0,
-
-        0, 1234, 1233, 1234, 1235,    0, 1236, 1233, 1234, 1234,
-     1236, 1235,    0, 1234, 1237, 1235, 1236,    0, 1237, 1238,
-        0, 1235,    0, 1238, 1237,    0, 1236,    0,    0, 1238,
-        0, 1235, 1266, 1236, 1237,    0, 1266, 1236,    0, 1238,
-        0, 1237, 1266, 1236, 1264, 1237, 1238,    0, 1264,    0,
-     1238, 1237, 1266, 1236, 1264,    0, 1238, 1264, 1267, 1266,
-        0, 1237, 1267, 1266, 1264,    0, 1238,    0, 1267, 1266,
-     1268, 1264, 1269, 1267, 1268, 1264, 1269,    0, 1267, 1266,
-     1268, 1264, 1269,    0, 1264, 1267,    0,    0,    0, 1267,
-     1268, 1264, 1269,    0, 1270, 1267,    0, 1268, 1270, 1269,
-
-     1267, 1268,    0, 1269, 1270, 1267, 1271, 1268, 1271, 1269,
-     1271,    0,    0,    0, 1270,    0, 1271, 1268,    0, 1269,
-        0, 1270,    0,    0, 1272, 1270, 1271,    0, 1272,    0,
-        0, 1270, 1273, 1271, 1272, 1271, 1273, 1271,    0, 1272,
-        0, 1270, 1273, 1271, 1272,    0,    0,    0,    0,    0,
-     1274, 1272, 1273, 1271, 1274, 1272,    0,    0,    0, 1273,
-     1274, 1272,    0, 1273,    0,    0, 1272,    0,    0, 1273,
-     1274, 1272, 1275,    0,    0,    0, 1275, 1274,    0, 1273,
-        0, 1274, 1275, 1277, 1276, 1275, 1276, 1274, 1277,    0,
-     1277, 1276, 1275,    0, 1278, 1277, 1276, 1274, 1278, 1275,
-
-     1277,    0,    0, 1275, 1278,    0,    0,    0,    0, 1275,
-     1277, 1276, 1275, 1276, 1278, 1277, 1279, 1277, 1276, 1275,
-     1279, 1278, 1277, 1276, 1280, 1278, 1279, 1277, 1280, 1281,
-        0, 1278,    0, 1281, 1280,    0, 1279,    0, 1282, 1281,
-        0, 1278, 1282, 1279, 1280,    0,    0, 1279, 1282, 1281,
-        0, 1280,    0, 1279,    0, 1280, 1281,    0, 1282,    0,
-     1281, 1280,    0, 1279,    0, 1282, 1281,    0, 1283, 1282,
-     1284, 1280, 1283, 1285, 1284, 1282, 1281, 1285, 1283, 1283,
-     1284, 1286, 1286, 1285,    0, 1282, 1286,    0, 1283,    0,
-     1284,    0, 1286, 1285,    0, 1283,    0, 1284,    0, 1283,
-
-     1285, 1284, 1286,    0, 1285, 1283, 1283, 1284, 1286, 1286,
-     1285, 1302, 1302, 1286, 1304, 1283,    0, 1284, 1304, 1286,
-     1285,    0, 1305, 1306, 1304,    0, 1305, 1306,    0, 1286,
-        0,    0, 1305, 1306, 1304,    0, 1302,    0,    0,    0,
-     1302, 1304, 1305, 1306,    0, 1304, 1302,    0,    0, 1305,
-     1306, 1304,    0, 1305, 1306,    0, 1302,    0,    0, 1305,
-     1306, 1304,    0, 1302, 1307,    0, 1307, 1302,    0, 1305,
-     1306, 1307, 1308, 1302, 1308, 1309, 1307, 1309, 1310, 1308,
-     1310,    0, 1309, 1302, 1308, 1310,    0, 1309,    0,    0,
-     1310, 1307,    0, 1307,    0,    0,    0,    0, 1307, 1308,
-
-        0, 1308, 1309, 1307, 1309, 1310, 1308, 1310, 1311, 1309,
-     1311, 1308, 1310,    0, 1309, 1311, 1312, 1310, 1312,    0,
-     1311, 1313,    0, 1312,    0, 1313, 1314,    0, 1312, 1325,
-     1314, 1313,    0, 1325, 1326, 1311, 1314, 1311, 1326, 1325,
-        0, 1313, 1311, 1312, 1326, 1312, 1314, 1311, 1313, 1325,
-     1312,    0, 1313, 1314, 1326, 1312, 1325, 1314, 1313,    0,
-     1325, 1326,    0, 1314,    0, 1326, 1325,    0, 1313,    0,
-     1327, 1326,    0, 1314, 1327, 1328, 1325, 1328,    0,    0,
-     1327, 1326, 1328,    0, 1336,    0, 1336, 1328,    0,    0,
-     1327, 1336,    0,    0,    0,    0, 1336, 1327,    0,    0,
-
-        0, 1327, 1328,    0, 1328,    0,    0, 1327,    0, 1328,
-        0, 1336,    0, 1336, 1328,    0,    0, 1327, 1336,    0,
-        0,    0,    0, 1336, 1368, 1368, 1368, 1368, 1368, 1369,
-        0,    0, 1369, 1369, 1371, 1371, 1371,    0, 1371, 1372,
-        0, 1372, 1372, 1372, 1373,    0, 1373, 1373, 1373, 1374,
-        0, 1374, 1374, 1374, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367, 1367,
-     1367
+        1,    1,    1,    1,    1,    1,    9,    9,   10,   10,
+       15,   16,   16,   16,   16,   16,   16,   16,   16,   16,
+       16,   15,   17,   17,   17,   17,   17,   17,   17,   17,
+
+       17,   17,   17,   18,   18,   21,   22,   21,   27,   28,
+       22,   23,   30,   21,   27,   21,   22,   28,   23,   21,
+       21,   31,   41,   28,   41,   23,   22,   41,   23,  696,
+       44,   23,   21,   22,   21,   27,   28,   22,   23,   30,
+       21,   27,   21,   22,   28,   23,   21,   21,   31,   41,
+       28,   41,   23,   22,   41,   23,   24,   44,   23,   25,
+       24,   25,   50,   50,   24,   32,   25,   63,   33,   32,
+       24,   25,   33,   24,  690,   32,  590,  590,   33,   43,
+       43,   64,  689,   24,  653,  653,   25,   24,   25,  687,
+       34,   24,   32,   25,   63,   33,   32,   24,   25,   33,
+
+       24,   26,   32,   36,   34,   33,   43,   43,   64,   26,
+       34,   34,   26,   67,   36,   26,   29,   34,   26,  685,
+       36,   26,   29,   29,   29,   42,   68,  683,   26,   29,
+       36,   34,  681,   42,  679,  677,   26,   34,   34,   26,
+       67,   36,   26,   29,   70,   26,   35,   36,   26,   29,
+       29,   29,   42,   68,   35,   38,   29,   65,   35,   38,
+       42,   35,   35,   38,   66,   65,   71,   66,   74,   38,
+      673,   70,  666,   35,   77,  652,   80,   80,  628,   81,
+      582,   35,   38,  507,   65,   35,   38,  408,   35,   35,
+       38,   66,   65,   71,   66,   74,   38,   39,   82,   39,
+
+       83,   77,   39,   80,   80,   39,   81,   39,  280,   39,
+       39,   55,   55,   55,   55,   55,   55,   55,   55,   55,
+       55,   69,   69,   73,   39,   82,   39,   83,  153,   39,
+       73,   85,   39,   87,   39,   69,   39,   39,   40,   75,
+       75,   75,   40,   75,   76,   40,   40,   88,   69,   69,
+       73,   89,   40,   91,   76,   40,   54,   73,   85,   52,
+       87,   47,   69,   45,   20,   40,   75,   75,   75,   40,
+       75,   76,   40,   40,   88,   19,   11,    7,   89,   40,
+       91,   76,   40,   56,   56,   56,   56,   56,   56,   56,
+       56,   56,   56,   57,   57,   57,   57,   57,   57,   57,
+
+       57,   57,   57,   57,   78,   79,   92,   79,   90,   78,
+       79,   84,   84,   86,   90,   86,   79,   93,   94,   86,
+       96,   95,   97,   79,   95,   99,   86,  100,    6,  102,
+       86,   78,   79,   92,   79,   90,   78,   79,   84,   84,
+       86,   90,   86,   79,   93,   94,   86,   96,   95,   97,
+       79,   95,   99,   86,  100,  101,  102,   86,  103,  104,
+      105,  106,  107,  106,  107,  101,  108,  109,  110,  111,
+      101,  101,  113,  112,  114,  107,  112,  115,  117,  118,
+      119,  120,  101,  121,  123,  103,  104,  105,  106,  107,
+      106,  107,  101,  108,  109,  110,  111,  101,  101,  113,
+
+      112,  114,  107,  112,  115,  117,  118,  119,  120,  122,
+      121,  123,  124,  122,  125,  126,  127,  124,  128,  129,
+      130,  131,  132,  133,  134,  124,  126,  128,    5,  136,
+      124,  137,  138,  129,    4,  128,  122,  141,  142,  124,
+      122,  125,  126,  127,  124,  128,  129,  130,  131,  132,
+      133,  134,  124,  126,  128,  135,  136,  124,  137,  138,
+      129,  139,  128,  140,  141,  142,  135,  144,  143,  145,
+      140,  146,  147,  140,  143,  156,  158,  159,  161,  163,
+      144,  139,  135,    3,    0,    0,    0,    0,  139,    0,
+      140,    0,  164,  135,  144,  143,  145,  140,  146,  147,
+
+      140,  143,  156,  158,  159,  161,  163,  144,  139,  154,
+      154,  154,  154,  154,  154,  154,  154,  154,  154,  164,
+      165,  166,  167,  168,  169,  170,  169,  171,  172,  173,
+      174,  175,  176,  177,  178,  179,  180,  181,  182,    0,
+      184,  169,  185,  186,  187,  188,  189,  165,  166,  167,
+      168,  169,  170,  169,  171,  172,  173,  174,  175,  176,
+      177,  178,  179,  180,  181,  182,  183,  184,  169,  185,
+      186,  187,  188,  189,  190,  192,  193,  194,  195,  196,
+      197,  183,  198,  199,  200,  201,  202,  203,  204,  205,
+      206,  207,  208,  183,  202,  209,  210,  211,  212,  213,
+
+      214,  190,  192,  193,  194,  195,  196,  197,  183,  198,
+      199,  200,  201,  202,  203,  204,  205,  206,  207,  208,
+      215,  202,  209,  210,  211,  212,  213,  214,  216,  217,
+      218,  220,  221,  222,  223,  224,  225,  226,  216,  227,
+      228,  229,  231,  232,  233,  224,  234,  215,  235,  236,
+      237,  239,    0,  241,  242,  216,  217,  218,  220,  221,
+      222,  223,  224,  225,  226,  216,  227,  228,  229,  231,
+      232,  233,  224,  234,  238,  235,  236,  237,  239,  240,
+      241,  242,  243,  244,  245,  246,  247,  248,  249,  250,
+      251,  252,  240,  238,  254,  255,  256,  257,  258,  259,
+
+      260,  238,  261,  262,  263,  264,  240,  266,  268,  243,
+      244,  245,  246,  247,  248,  249,  250,  251,  252,  240,
+      238,  254,  255,  256,  257,  258,  259,  260,  267,  261,
+      262,  263,  264,  270,  266,  268,  269,  267,  269,  271,
+      272,  273,  274,  275,  276,  277,  278,  279,  281,  277,
+      282,  283,  284,  285,  286,  267,  287,  288,  289,  291,
+      270,  294,  295,  269,  267,  269,  271,  272,  273,  274,
+      275,  276,  277,  278,  279,  281,  277,  282,  283,  284,
+      285,  286,  296,  287,  288,  289,  291,  297,  294,  295,
+      299,  300,  301,  302,  304,  305,  306,  307,  308,  309,
+
+      310,  311,  312,  315,  316,  317,  318,  319,  320,  296,
+      321,  322,  324,  325,  297,  326,  327,  299,  300,  301,
+      302,  304,  305,  306,  307,  308,  309,  310,  311,  312,
+      315,  316,  317,  318,  319,  320,  330,  321,  322,  324,
+      325,  331,  326,  327,  333,  335,  336,  337,  338,  339,
+      340,  341,  343,  347,  349,  350,  352,  353,  353,  354,
+      355,  356,  341,  330,  358,  359,  360,  361,  331,  363,
+      364,  333,  335,  336,  337,  338,  339,  340,  341,  343,
+      347,  349,  350,  352,  353,  353,  354,  355,  356,  341,
+      366,  358,  359,  360,  361,  367,  363,  364,  368,  369,
+
+      371,  372,  373,  374,  375,  377,  378,  379,  380,  383,
+      384,  385,  386,  387,  390,  391,  393,  366,  394,  395,
+      396,  397,  367,  398,  399,  368,  369,  371,  372,  373,
+      374,  375,  377,  378,  379,  380,  383,  384,  385,  386,
+      387,  390,  391,  393,  400,  394,  395,  396,  397,  401,
+      398,  399,  403,  405,  407,  411,  413,  415,  416,  417,
+      418,  419,  420,  421,  422,  423,  425,  426,  427,  428,
+      429,  400,  430,  432,  433,  434,  401,  435,  436,  403,
+      405,  407,  411,  413,  415,  416,  417,  418,  419,  420,
+      421,  422,  423,  425,  426,  427,  428,  429,  437,  430,
+
+      432,  433,  434,  438,  435,  436,  439,  440,  441,  442,
+      445,  446,  447,  448,  449,  450,  453,  456,  457,  458,
+      459,  462,  458,  465,  466,  437,  467,  468,  469,  470,
+      438,  473,  474,  439,  440,  441,  442,  445,  446,  447,
+      448,  449,  450,  453,  456,  457,  458,  459,  462,  458,
+      465,  466,  475,  467,  468,  469,  470,  476,  473,  474,
+      477,  479,  480,  481,  483,  484,  485,  486,  488,  489,
+      490,  491,  492,  493,  494,  495,  496,  498,  499,  475,
+      500,  502,  503,  504,  476,  508,  510,  477,  479,  480,
+      481,  483,  484,  485,  486,  488,  489,  490,  491,  492,
+
+      493,  494,  495,  496,  498,  499,  512,  500,  502,  503,
+      504,  513,  508,  510,  514,  515,  517,  519,  520,  521,
+      522,  523,  525,  527,  529,  532,  534,  535,  536,  537,
+      544,  545,  546,  512,  549,  551,  553,  555,  513,  556,
+      557,  514,  515,  517,  519,  520,  521,  522,  523,  525,
+      527,  529,  532,  534,  535,  536,  537,  544,  545,  546,
+      558,  549,  551,  553,  555,  559,  556,  557,  560,  562,
+      563,  564,  565,  567,  569,  571,  572,  573,  574,  575,
+      580,  581,  587,  591,  592,  595,  596,  558,  597,  601,
+      604,  605,  559,  608,  609,  560,  562,  563,  564,  565,
+
+      567,  569,  571,  572,  573,  574,  575,  580,  581,  587,
+      591,  592,  595,  596,  610,  597,  601,  604,  605,  611,
+      608,  609,  614,  615,  616,  619,  621,  622,  623,  624,
+      625,  629,  630,  630,  632,  636,  637,  640,  641,  642,
+      643,  610,  647,    0,  648,  649,  611,  651,  654,  614,
+      615,  616,  619,  621,  622,  623,  624,  625,  629,  655,
+      658,  632,  636,  637,  640,  641,  642,  643,  661,  647,
+      630,  648,  649,  664,  651,  654,  667,  667,  668,  672,
+      674,  678,  680,  682,  684,  686,  655,  658,    0,    0,
+        0,    0,    0,    0,    0,  661,    0,  630,    0,    0,
+
+      664,    0,    0,    0,    0,  668,  672,  674,  678,  680,
+      682,  684,  686,    0,    0,    0,    0,    0,  667,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,  667,  693,  693,  693,  693,
+      693,  694,  694,  694,  694,  694,  695,    0,    0,  695,
+      695,  697,  697,  697,    0,  697,  698,    0,  698,  698,
+      698,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
+      692,  692,  692,  692,  692,  692,  692,  692
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -2888,6 +1245,7 @@ static yyconst flex_int16_t yy_chk[9032] =
 
 static thread_local std::stringstream strbuf;
 
+#line 1249 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -2901,7 +1259,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 2905 "flex_lexer.cpp"
+#line 1263 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -2957,7 +1315,7 @@ struct yyguts_t
 
     }; /* end struct yyguts_t */
 
-static int yy_init_globals (yyscan_t yyscanner );
+static int yy_init_globals ( yyscan_t yyscanner );
 
     /* This must go here because YYSTYPE and YYLTYPE are included
      * from bison output in section 1.*/
@@ -2965,50 +1323,50 @@ static int yy_init_globals (yyscan_t yyscanner );
     
     #    define yylloc yyg->yylloc_r
     
-int hsql_lex_init (yyscan_t* scanner);
+int yylex_init (yyscan_t* scanner);
 
-int hsql_lex_init_extra (YY_EXTRA_TYPE user_defined,yyscan_t* scanner);
+int yylex_init_extra ( YY_EXTRA_TYPE user_defined, yyscan_t* scanner);
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int hsql_lex_destroy (yyscan_t yyscanner );
+int yylex_destroy ( yyscan_t yyscanner );
 
-int hsql_get_debug (yyscan_t yyscanner );
+int yyget_debug ( yyscan_t yyscanner );
 
-void hsql_set_debug (int debug_flag ,yyscan_t yyscanner );
+void yyset_debug ( int debug_flag , yyscan_t yyscanner );
 
-YY_EXTRA_TYPE hsql_get_extra (yyscan_t yyscanner );
+YY_EXTRA_TYPE yyget_extra ( yyscan_t yyscanner );
 
-void hsql_set_extra (YY_EXTRA_TYPE user_defined ,yyscan_t yyscanner );
+void yyset_extra ( YY_EXTRA_TYPE user_defined , yyscan_t yyscanner );
 
-FILE *hsql_get_in (yyscan_t yyscanner );
+FILE *yyget_in ( yyscan_t yyscanner );
 
-void hsql_set_in  (FILE * _in_str ,yyscan_t yyscanner );
+void yyset_in  ( FILE * _in_str , yyscan_t yyscanner );
 
-FILE *hsql_get_out (yyscan_t yyscanner );
+FILE *yyget_out ( yyscan_t yyscanner );
 
-void hsql_set_out  (FILE * _out_str ,yyscan_t yyscanner );
+void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			int hsql_get_leng (yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
-char *hsql_get_text (yyscan_t yyscanner );
+char *yyget_text ( yyscan_t yyscanner );
 
-int hsql_get_lineno (yyscan_t yyscanner );
+int yyget_lineno ( yyscan_t yyscanner );
 
-void hsql_set_lineno (int _line_number ,yyscan_t yyscanner );
+void yyset_lineno ( int _line_number , yyscan_t yyscanner );
 
-int hsql_get_column  (yyscan_t yyscanner );
+int yyget_column  ( yyscan_t yyscanner );
 
-void hsql_set_column (int _column_no ,yyscan_t yyscanner );
+void yyset_column ( int _column_no , yyscan_t yyscanner );
 
-YYSTYPE * hsql_get_lval (yyscan_t yyscanner );
+YYSTYPE * yyget_lval ( yyscan_t yyscanner );
 
-void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
+void yyset_lval ( YYSTYPE * yylval_param , yyscan_t yyscanner );
 
-       YYLTYPE *hsql_get_lloc (yyscan_t yyscanner );
+       YYLTYPE *yyget_lloc ( yyscan_t yyscanner );
     
-        void hsql_set_lloc (YYLTYPE * yylloc_param ,yyscan_t yyscanner );
+        void yyset_lloc ( YYLTYPE * yylloc_param , yyscan_t yyscanner );
     
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -3016,9 +1374,9 @@ void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int hsql_wrap (yyscan_t yyscanner );
+extern "C" int yywrap ( yyscan_t yyscanner );
 #else
-extern int hsql_wrap (yyscan_t yyscanner );
+extern int yywrap ( yyscan_t yyscanner );
 #endif
 #endif
 
@@ -3027,19 +1385,18 @@ extern int hsql_wrap (yyscan_t yyscanner );
 #endif
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int ,yyscan_t yyscanner);
+static void yy_flex_strncpy ( char *, const char *, int , yyscan_t yyscanner);
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
+static int yy_flex_strlen ( const char * , yyscan_t yyscanner);
 #endif
 
 #ifndef YY_NO_INPUT
-
 #ifdef __cplusplus
-static int yyinput (yyscan_t yyscanner );
+static int yyinput ( yyscan_t yyscanner );
 #else
-static int input (yyscan_t yyscanner );
+static int input ( yyscan_t yyscanner );
 #endif
 
 #endif
@@ -3124,10 +1481,10 @@ static int input (yyscan_t yyscanner );
 #ifndef YY_DECL
 #define YY_DECL_IS_OURS 1
 
-extern int hsql_lex \
-               (YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yyscanner);
+extern int yylex \
+               (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner);
 
-#define YY_DECL int hsql_lex \
+#define YY_DECL int yylex \
                (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner)
 #endif /* !YY_DECL */
 
@@ -3177,19 +1534,19 @@ YY_DECL
 			yyout = stdout;
 
 		if ( ! YY_CURRENT_BUFFER ) {
-			hsql_ensure_buffer_stack (yyscanner);
+			yyensure_buffer_stack (yyscanner);
 			YY_CURRENT_BUFFER_LVALUE =
-				hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner);
+				yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner);
 		}
 
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 		}
 
 	{
 #line 57 "flex_lexer.l"
 
 
-#line 3193 "flex_lexer.cpp"
+#line 1550 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -3216,13 +1573,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 1368 )
-					yy_c = yy_meta[(unsigned int) yy_c];
+				if ( yy_current_state >= 693 )
+					yy_c = yy_meta[yy_c];
 				}
-			yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 1367 );
+		while ( yy_current_state != 692 );
 		yy_cp = yyg->yy_last_accepting_cpos;
 		yy_current_state = yyg->yy_last_accepting_state;
 
@@ -4220,7 +2577,7 @@ YY_RULE_SETUP
 #line 288 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 4224 "flex_lexer.cpp"
+#line 2581 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(COMMENT):
 	yyterminate();
@@ -4239,7 +2596,7 @@ case YY_STATE_EOF(COMMENT):
 			/* We're scanning a new file or input source.  It's
 			 * possible that this happened because the user
 			 * just pointed yyin at a new source and called
-			 * hsql_lex().  If so, then we have to assure
+			 * yylex().  If so, then we have to assure
 			 * consistency between YY_CURRENT_BUFFER and our
 			 * globals.  Here is the right place to do so, because
 			 * this is the first action (other than possibly a
@@ -4300,7 +2657,7 @@ case YY_STATE_EOF(COMMENT):
 				{
 				yyg->yy_did_buffer_switch_on_eof = 0;
 
-				if ( hsql_wrap(yyscanner ) )
+				if ( yywrap( yyscanner ) )
 					{
 					/* Note: because we've taken care in
 					 * yy_get_next_buffer() to have set up
@@ -4354,7 +2711,7 @@ case YY_STATE_EOF(COMMENT):
 	} /* end of action switch */
 		} /* end of scanning one token */
 	} /* end of user's declarations */
-} /* end of hsql_lex */
+} /* end of yylex */
 
 /* yy_get_next_buffer - try to read in a new buffer
  *
@@ -4368,7 +2725,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	char *dest = YY_CURRENT_BUFFER_LVALUE->yy_ch_buf;
 	char *source = yyg->yytext_ptr;
-	yy_size_t number_to_move, i;
+	int number_to_move, i;
 	int ret_val;
 
 	if ( yyg->yy_c_buf_p > &YY_CURRENT_BUFFER_LVALUE->yy_ch_buf[yyg->yy_n_chars + 1] )
@@ -4397,7 +2754,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	/* Try to read more data. */
 
 	/* First move last chars to start of buffer. */
-	number_to_move = (yy_size_t) (yyg->yy_c_buf_p - yyg->yytext_ptr) - 1;
+	number_to_move = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr - 1);
 
 	for ( i = 0; i < number_to_move; ++i )
 		*(dest++) = *(source++);
@@ -4433,7 +2790,8 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 				b->yy_ch_buf = (char *)
 					/* Include room in for 2 EOB chars. */
-					hsql_realloc((void *) b->yy_ch_buf,(yy_size_t) (b->yy_buf_size + 2) ,yyscanner );
+					yyrealloc( (void *) b->yy_ch_buf,
+							 (yy_size_t) (b->yy_buf_size + 2) , yyscanner );
 				}
 			else
 				/* Can't grow it, we don't own it. */
@@ -4465,7 +2823,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		if ( number_to_move == YY_MORE_ADJ )
 			{
 			ret_val = EOB_ACT_END_OF_FILE;
-			hsql_restart(yyin  ,yyscanner);
+			yyrestart( yyin  , yyscanner);
 			}
 
 		else
@@ -4479,12 +2837,15 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	else
 		ret_val = EOB_ACT_CONTINUE_SCAN;
 
-	if ((int) (yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
+	if ((yyg->yy_n_chars + number_to_move) > YY_CURRENT_BUFFER_LVALUE->yy_buf_size) {
 		/* Extend the array by 50%, plus the number we really need. */
 		int new_size = yyg->yy_n_chars + number_to_move + (yyg->yy_n_chars >> 1);
-		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) hsql_realloc((void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf,(yy_size_t) new_size ,yyscanner );
+		YY_CURRENT_BUFFER_LVALUE->yy_ch_buf = (char *) yyrealloc(
+			(void *) YY_CURRENT_BUFFER_LVALUE->yy_ch_buf, (yy_size_t) new_size , yyscanner );
 		if ( ! YY_CURRENT_BUFFER_LVALUE->yy_ch_buf )
 			YY_FATAL_ERROR( "out of dynamic memory in yy_get_next_buffer()" );
+		/* "- 2" to take care of EOB's */
+		YY_CURRENT_BUFFER_LVALUE->yy_buf_size = (int) (new_size - 2);
 	}
 
 	yyg->yy_n_chars += number_to_move;
@@ -4517,10 +2878,10 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 1368 )
-				yy_c = yy_meta[(unsigned int) yy_c];
+			if ( yy_current_state >= 693 )
+				yy_c = yy_meta[yy_c];
 			}
-		yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
+		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 		}
 
 	return yy_current_state;
@@ -4546,11 +2907,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 1368 )
-			yy_c = yy_meta[(unsigned int) yy_c];
+		if ( yy_current_state >= 693 )
+			yy_c = yy_meta[yy_c];
 		}
-	yy_current_state = yy_nxt[yy_base[yy_current_state] + (flex_int16_t) yy_c];
-	yy_is_jam = (yy_current_state == 1367);
+	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
+	yy_is_jam = (yy_current_state == 692);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -4585,7 +2946,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 		else
 			{ /* need more input */
-			int offset = yyg->yy_c_buf_p - yyg->yytext_ptr;
+			int offset = (int) (yyg->yy_c_buf_p - yyg->yytext_ptr);
 			++yyg->yy_c_buf_p;
 
 			switch ( yy_get_next_buffer( yyscanner ) )
@@ -4602,13 +2963,13 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 					 */
 
 					/* Reset buffer status. */
-					hsql_restart(yyin ,yyscanner);
+					yyrestart( yyin , yyscanner);
 
 					/*FALLTHROUGH*/
 
 				case EOB_ACT_END_OF_FILE:
 					{
-					if ( hsql_wrap(yyscanner ) )
+					if ( yywrap( yyscanner ) )
 						return 0;
 
 					if ( ! yyg->yy_did_buffer_switch_on_eof )
@@ -4640,34 +3001,34 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @note This function does not reset the start condition to @c INITIAL .
  */
-    void hsql_restart  (FILE * input_file , yyscan_t yyscanner)
+    void yyrestart  (FILE * input_file , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	if ( ! YY_CURRENT_BUFFER ){
-        hsql_ensure_buffer_stack (yyscanner);
+        yyensure_buffer_stack (yyscanner);
 		YY_CURRENT_BUFFER_LVALUE =
-            hsql__create_buffer(yyin,YY_BUF_SIZE ,yyscanner);
+            yy_create_buffer( yyin, YY_BUF_SIZE , yyscanner);
 	}
 
-	hsql__init_buffer(YY_CURRENT_BUFFER,input_file ,yyscanner);
-	hsql__load_buffer_state(yyscanner );
+	yy_init_buffer( YY_CURRENT_BUFFER, input_file , yyscanner);
+	yy_load_buffer_state( yyscanner );
 }
 
 /** Switch to a different input buffer.
  * @param new_buffer The new input buffer.
  * @param yyscanner The scanner object.
  */
-    void hsql__switch_to_buffer  (YY_BUFFER_STATE  new_buffer , yyscan_t yyscanner)
+    void yy_switch_to_buffer  (YY_BUFFER_STATE  new_buffer , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	/* TODO. We should be able to replace this entire function body
 	 * with
-	 *		hsql_pop_buffer_state();
-	 *		hsql_push_buffer_state(new_buffer);
+	 *		yypop_buffer_state();
+	 *		yypush_buffer_state(new_buffer);
      */
-	hsql_ensure_buffer_stack (yyscanner);
+	yyensure_buffer_stack (yyscanner);
 	if ( YY_CURRENT_BUFFER == new_buffer )
 		return;
 
@@ -4680,17 +3041,17 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		}
 
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
-	hsql__load_buffer_state(yyscanner );
+	yy_load_buffer_state( yyscanner );
 
 	/* We don't actually know whether we did this switch during
-	 * EOF (hsql_wrap()) processing, but the only time this flag
-	 * is looked at is after hsql_wrap() is called, so it's safe
+	 * EOF (yywrap()) processing, but the only time this flag
+	 * is looked at is after yywrap() is called, so it's safe
 	 * to go ahead and always set it.
 	 */
 	yyg->yy_did_buffer_switch_on_eof = 1;
 }
 
-static void hsql__load_buffer_state  (yyscan_t yyscanner)
+static void yy_load_buffer_state  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	yyg->yy_n_chars = YY_CURRENT_BUFFER_LVALUE->yy_n_chars;
@@ -4705,35 +3066,35 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  * @return the allocated buffer state.
  */
-    YY_BUFFER_STATE hsql__create_buffer  (FILE * file, int  size , yyscan_t yyscanner)
+    YY_BUFFER_STATE yy_create_buffer  (FILE * file, int  size , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
     
-	b = (YY_BUFFER_STATE) hsql_alloc(sizeof( struct yy_buffer_state ) ,yyscanner );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state ) , yyscanner );
 	if ( ! b )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__create_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_buf_size = size;
 
 	/* yy_ch_buf has to be 2 characters longer than the size given because
 	 * we need to put in 2 end-of-buffer characters.
 	 */
-	b->yy_ch_buf = (char *) hsql_alloc((yy_size_t) (b->yy_buf_size + 2) ,yyscanner );
+	b->yy_ch_buf = (char *) yyalloc( (yy_size_t) (b->yy_buf_size + 2) , yyscanner );
 	if ( ! b->yy_ch_buf )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__create_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_create_buffer()" );
 
 	b->yy_is_our_buffer = 1;
 
-	hsql__init_buffer(b,file ,yyscanner);
+	yy_init_buffer( b, file , yyscanner);
 
 	return b;
 }
 
 /** Destroy the buffer.
- * @param b a buffer created with hsql__create_buffer()
+ * @param b a buffer created with yy_create_buffer()
  * @param yyscanner The scanner object.
  */
-    void hsql__delete_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
+    void yy_delete_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
@@ -4744,28 +3105,28 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
 		YY_CURRENT_BUFFER_LVALUE = (YY_BUFFER_STATE) 0;
 
 	if ( b->yy_is_our_buffer )
-		hsql_free((void *) b->yy_ch_buf ,yyscanner );
+		yyfree( (void *) b->yy_ch_buf , yyscanner );
 
-	hsql_free((void *) b ,yyscanner );
+	yyfree( (void *) b , yyscanner );
 }
 
 /* Initializes or reinitializes a buffer.
  * This function is sometimes called more than once on the same buffer,
- * such as during a hsql_restart() or at EOF.
+ * such as during a yyrestart() or at EOF.
  */
-    static void hsql__init_buffer  (YY_BUFFER_STATE  b, FILE * file , yyscan_t yyscanner)
+    static void yy_init_buffer  (YY_BUFFER_STATE  b, FILE * file , yyscan_t yyscanner)
 
 {
 	int oerrno = errno;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
-	hsql__flush_buffer(b ,yyscanner);
+	yy_flush_buffer( b , yyscanner);
 
 	b->yy_input_file = file;
 	b->yy_fill_buffer = 1;
 
-    /* If b is the current buffer, then hsql__init_buffer was _probably_
-     * called from hsql_restart() or through yy_get_next_buffer.
+    /* If b is the current buffer, then yy_init_buffer was _probably_
+     * called from yyrestart() or through yy_get_next_buffer.
      * In that case, we don't want to reset the lineno or column.
      */
     if (b != YY_CURRENT_BUFFER){
@@ -4782,7 +3143,7 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  * @param b the buffer state to be flushed, usually @c YY_CURRENT_BUFFER.
  * @param yyscanner The scanner object.
  */
-    void hsql__flush_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
+    void yy_flush_buffer (YY_BUFFER_STATE  b , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if ( ! b )
@@ -4803,7 +3164,7 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
 	if ( b == YY_CURRENT_BUFFER )
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 }
 
 /** Pushes the new state onto the stack. The new state becomes
@@ -4812,15 +3173,15 @@ static void hsql__load_buffer_state  (yyscan_t yyscanner)
  *  @param new_buffer The new state.
  *  @param yyscanner The scanner object.
  */
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
+void yypush_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if (new_buffer == NULL)
 		return;
 
-	hsql_ensure_buffer_stack(yyscanner);
+	yyensure_buffer_stack(yyscanner);
 
-	/* This block is copied from hsql__switch_to_buffer. */
+	/* This block is copied from yy_switch_to_buffer. */
 	if ( YY_CURRENT_BUFFER )
 		{
 		/* Flush out information for old buffer. */
@@ -4834,8 +3195,8 @@ void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
 		yyg->yy_buffer_stack_top++;
 	YY_CURRENT_BUFFER_LVALUE = new_buffer;
 
-	/* copied from hsql__switch_to_buffer. */
-	hsql__load_buffer_state(yyscanner );
+	/* copied from yy_switch_to_buffer. */
+	yy_load_buffer_state( yyscanner );
 	yyg->yy_did_buffer_switch_on_eof = 1;
 }
 
@@ -4843,19 +3204,19 @@ void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer , yyscan_t yyscanner)
  *  The next element becomes the new top.
  *  @param yyscanner The scanner object.
  */
-void hsql_pop_buffer_state (yyscan_t yyscanner)
+void yypop_buffer_state (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	if (!YY_CURRENT_BUFFER)
 		return;
 
-	hsql__delete_buffer(YY_CURRENT_BUFFER ,yyscanner);
+	yy_delete_buffer(YY_CURRENT_BUFFER , yyscanner);
 	YY_CURRENT_BUFFER_LVALUE = NULL;
 	if (yyg->yy_buffer_stack_top > 0)
 		--yyg->yy_buffer_stack_top;
 
 	if (YY_CURRENT_BUFFER) {
-		hsql__load_buffer_state(yyscanner );
+		yy_load_buffer_state( yyscanner );
 		yyg->yy_did_buffer_switch_on_eof = 1;
 	}
 }
@@ -4863,9 +3224,9 @@ void hsql_pop_buffer_state (yyscan_t yyscanner)
 /* Allocates the stack if it does not exist.
  *  Guarantees space for at least one push.
  */
-static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
+static void yyensure_buffer_stack (yyscan_t yyscanner)
 {
-	int num_to_alloc;
+	yy_size_t num_to_alloc;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
 	if (!yyg->yy_buffer_stack) {
@@ -4875,14 +3236,14 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
 		 * immediate realloc on the next call.
          */
       num_to_alloc = 1; /* After all that talk, this was set to 1 anyways... */
-		yyg->yy_buffer_stack = (struct yy_buffer_state**)hsql_alloc
+		yyg->yy_buffer_stack = (struct yy_buffer_state**)yyalloc
 								(num_to_alloc * sizeof(struct yy_buffer_state*)
 								, yyscanner);
 		if ( ! yyg->yy_buffer_stack )
-			YY_FATAL_ERROR( "out of dynamic memory in hsql_ensure_buffer_stack()" );
-								  
+			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
+
 		memset(yyg->yy_buffer_stack, 0, num_to_alloc * sizeof(struct yy_buffer_state*));
-				
+
 		yyg->yy_buffer_stack_max = num_to_alloc;
 		yyg->yy_buffer_stack_top = 0;
 		return;
@@ -4894,12 +3255,12 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
 		yy_size_t grow_size = 8 /* arbitrary grow size */;
 
 		num_to_alloc = yyg->yy_buffer_stack_max + grow_size;
-		yyg->yy_buffer_stack = (struct yy_buffer_state**)hsql_realloc
+		yyg->yy_buffer_stack = (struct yy_buffer_state**)yyrealloc
 								(yyg->yy_buffer_stack,
 								num_to_alloc * sizeof(struct yy_buffer_state*)
 								, yyscanner);
 		if ( ! yyg->yy_buffer_stack )
-			YY_FATAL_ERROR( "out of dynamic memory in hsql_ensure_buffer_stack()" );
+			YY_FATAL_ERROR( "out of dynamic memory in yyensure_buffer_stack()" );
 
 		/* zero only the new slots.*/
 		memset(yyg->yy_buffer_stack + yyg->yy_buffer_stack_max, 0, grow_size * sizeof(struct yy_buffer_state*));
@@ -4911,9 +3272,9 @@ static void hsql_ensure_buffer_stack (yyscan_t yyscanner)
  * @param base the character buffer
  * @param size the size in bytes of the character buffer
  * @param yyscanner The scanner object.
- * @return the newly allocated buffer state object. 
+ * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_buffer  (char * base, yy_size_t  size , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
     
@@ -4923,9 +3284,9 @@ YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yysc
 		/* They forgot to leave room for the EOB's. */
 		return NULL;
 
-	b = (YY_BUFFER_STATE) hsql_alloc(sizeof( struct yy_buffer_state ) ,yyscanner );
+	b = (YY_BUFFER_STATE) yyalloc( sizeof( struct yy_buffer_state ) , yyscanner );
 	if ( ! b )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__scan_buffer()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_buffer()" );
 
 	b->yy_buf_size = (int) (size - 2);	/* "- 2" to take care of EOB's */
 	b->yy_buf_pos = b->yy_ch_buf = base;
@@ -4937,33 +3298,33 @@ YY_BUFFER_STATE hsql__scan_buffer  (char * base, yy_size_t  size , yyscan_t yysc
 	b->yy_fill_buffer = 0;
 	b->yy_buffer_status = YY_BUFFER_NEW;
 
-	hsql__switch_to_buffer(b ,yyscanner );
+	yy_switch_to_buffer( b , yyscanner );
 
 	return b;
 }
 
-/** Setup the input buffer state to scan a string. The next call to hsql_lex() will
+/** Setup the input buffer state to scan a string. The next call to yylex() will
  * scan from a @e copy of @a str.
  * @param yystr a NUL-terminated string to scan
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  * @note If you want to scan bytes that may contain NUL values, then use
- *       hsql__scan_bytes() instead.
+ *       yy_scan_bytes() instead.
  */
-YY_BUFFER_STATE hsql__scan_string (yyconst char * yystr , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_string (const char * yystr , yyscan_t yyscanner)
 {
     
-	return hsql__scan_bytes(yystr,(int) strlen(yystr) ,yyscanner);
+	return yy_scan_bytes( yystr, (int) strlen(yystr) , yyscanner);
 }
 
-/** Setup the input buffer state to scan the given bytes. The next call to hsql_lex() will
+/** Setup the input buffer state to scan the given bytes. The next call to yylex() will
  * scan from a @e copy of @a bytes.
  * @param yybytes the byte buffer to scan
  * @param _yybytes_len the number of bytes in the buffer pointed to by @a bytes.
  * @param yyscanner The scanner object.
  * @return the newly allocated buffer state object.
  */
-YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
+YY_BUFFER_STATE yy_scan_bytes  (const char * yybytes, int  _yybytes_len , yyscan_t yyscanner)
 {
 	YY_BUFFER_STATE b;
 	char *buf;
@@ -4972,18 +3333,18 @@ YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , y
     
 	/* Get memory for full buffer, including space for trailing EOB's. */
 	n = (yy_size_t) (_yybytes_len + 2);
-	buf = (char *) hsql_alloc(n ,yyscanner );
+	buf = (char *) yyalloc( n , yyscanner );
 	if ( ! buf )
-		YY_FATAL_ERROR( "out of dynamic memory in hsql__scan_bytes()" );
+		YY_FATAL_ERROR( "out of dynamic memory in yy_scan_bytes()" );
 
 	for ( i = 0; i < _yybytes_len; ++i )
 		buf[i] = yybytes[i];
 
 	buf[_yybytes_len] = buf[_yybytes_len+1] = YY_END_OF_BUFFER_CHAR;
 
-	b = hsql__scan_buffer(buf,n ,yyscanner);
+	b = yy_scan_buffer( buf, n , yyscanner);
 	if ( ! b )
-		YY_FATAL_ERROR( "bad buffer in hsql__scan_bytes()" );
+		YY_FATAL_ERROR( "bad buffer in yy_scan_bytes()" );
 
 	/* It's okay to grow etc. this buffer, and we should throw it
 	 * away when we're done.
@@ -4997,11 +3358,11 @@ YY_BUFFER_STATE hsql__scan_bytes  (yyconst char * yybytes, int  _yybytes_len , y
 #define YY_EXIT_FAILURE 2
 #endif
 
-static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
+static void yynoreturn yy_fatal_error (const char* msg , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
-	(void) fprintf( stderr, "%s\n", msg );
+	fprintf( stderr, "%s\n", msg );
 	exit( YY_EXIT_FAILURE );
 }
 
@@ -5012,7 +3373,7 @@ static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
 	do \
 		{ \
 		/* Undo effects of setting up yytext. */ \
-        yy_size_t yyless_macro_arg = (n); \
+        int yyless_macro_arg = (n); \
         YY_LESS_LINENO(yyless_macro_arg);\
 		yytext[yyleng] = yyg->yy_hold_char; \
 		yyg->yy_c_buf_p = yytext + yyless_macro_arg; \
@@ -5027,7 +3388,7 @@ static void yynoreturn yy_fatal_error (yyconst char* msg , yyscan_t yyscanner)
 /** Get the user-defined data for this scanner.
  * @param yyscanner The scanner object.
  */
-YY_EXTRA_TYPE hsql_get_extra  (yyscan_t yyscanner)
+YY_EXTRA_TYPE yyget_extra  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyextra;
@@ -5036,10 +3397,10 @@ YY_EXTRA_TYPE hsql_get_extra  (yyscan_t yyscanner)
 /** Get the current line number.
  * @param yyscanner The scanner object.
  */
-int hsql_get_lineno  (yyscan_t yyscanner)
+int yyget_lineno  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
-    
+
         if (! YY_CURRENT_BUFFER)
             return 0;
     
@@ -5049,10 +3410,10 @@ int hsql_get_lineno  (yyscan_t yyscanner)
 /** Get the current column number.
  * @param yyscanner The scanner object.
  */
-int hsql_get_column  (yyscan_t yyscanner)
+int yyget_column  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
-    
+
         if (! YY_CURRENT_BUFFER)
             return 0;
     
@@ -5062,7 +3423,7 @@ int hsql_get_column  (yyscan_t yyscanner)
 /** Get the input stream.
  * @param yyscanner The scanner object.
  */
-FILE *hsql_get_in  (yyscan_t yyscanner)
+FILE *yyget_in  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyin;
@@ -5071,7 +3432,7 @@ FILE *hsql_get_in  (yyscan_t yyscanner)
 /** Get the output stream.
  * @param yyscanner The scanner object.
  */
-FILE *hsql_get_out  (yyscan_t yyscanner)
+FILE *yyget_out  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyout;
@@ -5080,7 +3441,7 @@ FILE *hsql_get_out  (yyscan_t yyscanner)
 /** Get the length of the current token.
  * @param yyscanner The scanner object.
  */
-int hsql_get_leng  (yyscan_t yyscanner)
+int yyget_leng  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yyleng;
@@ -5090,7 +3451,7 @@ int hsql_get_leng  (yyscan_t yyscanner)
  * @param yyscanner The scanner object.
  */
 
-char *hsql_get_text  (yyscan_t yyscanner)
+char *yyget_text  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yytext;
@@ -5100,7 +3461,7 @@ char *hsql_get_text  (yyscan_t yyscanner)
  * @param user_defined The data to be associated with this scanner.
  * @param yyscanner The scanner object.
  */
-void hsql_set_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
+void yyset_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyextra = user_defined ;
@@ -5110,13 +3471,13 @@ void hsql_set_extra (YY_EXTRA_TYPE  user_defined , yyscan_t yyscanner)
  * @param _line_number line number
  * @param yyscanner The scanner object.
  */
-void hsql_set_lineno (int  _line_number , yyscan_t yyscanner)
+void yyset_lineno (int  _line_number , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
         /* lineno is only valid if an input buffer exists. */
         if (! YY_CURRENT_BUFFER )
-           YY_FATAL_ERROR( "hsql_set_lineno called with no buffer" );
+           YY_FATAL_ERROR( "yyset_lineno called with no buffer" );
     
     yylineno = _line_number;
 }
@@ -5125,13 +3486,13 @@ void hsql_set_lineno (int  _line_number , yyscan_t yyscanner)
  * @param _column_no column number
  * @param yyscanner The scanner object.
  */
-void hsql_set_column (int  _column_no , yyscan_t yyscanner)
+void yyset_column (int  _column_no , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
         /* column is only valid if an input buffer exists. */
         if (! YY_CURRENT_BUFFER )
-           YY_FATAL_ERROR( "hsql_set_column called with no buffer" );
+           YY_FATAL_ERROR( "yyset_column called with no buffer" );
     
     yycolumn = _column_no;
 }
@@ -5140,27 +3501,27 @@ void hsql_set_column (int  _column_no , yyscan_t yyscanner)
  * input buffer.
  * @param _in_str A readable stream.
  * @param yyscanner The scanner object.
- * @see hsql__switch_to_buffer
+ * @see yy_switch_to_buffer
  */
-void hsql_set_in (FILE *  _in_str , yyscan_t yyscanner)
+void yyset_in (FILE *  _in_str , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyin = _in_str ;
 }
 
-void hsql_set_out (FILE *  _out_str , yyscan_t yyscanner)
+void yyset_out (FILE *  _out_str , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yyout = _out_str ;
 }
 
-int hsql_get_debug  (yyscan_t yyscanner)
+int yyget_debug  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yy_flex_debug;
 }
 
-void hsql_set_debug (int  _bdebug , yyscan_t yyscanner)
+void yyset_debug (int  _bdebug , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yy_flex_debug = _bdebug ;
@@ -5168,25 +3529,25 @@ void hsql_set_debug (int  _bdebug , yyscan_t yyscanner)
 
 /* Accessor methods for yylval and yylloc */
 
-YYSTYPE * hsql_get_lval  (yyscan_t yyscanner)
+YYSTYPE * yyget_lval  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yylval;
 }
 
-void hsql_set_lval (YYSTYPE *  yylval_param , yyscan_t yyscanner)
+void yyset_lval (YYSTYPE *  yylval_param , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yylval = yylval_param;
 }
 
-YYLTYPE *hsql_get_lloc  (yyscan_t yyscanner)
+YYLTYPE *yyget_lloc  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     return yylloc;
 }
     
-void hsql_set_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
+void yyset_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     yylloc = yylloc_param;
@@ -5194,20 +3555,18 @@ void hsql_set_lloc (YYLTYPE *  yylloc_param , yyscan_t yyscanner)
     
 /* User-visible API */
 
-/* hsql_lex_init is special because it creates the scanner itself, so it is
+/* yylex_init is special because it creates the scanner itself, so it is
  * the ONLY reentrant function that doesn't take the scanner as the last argument.
  * That's why we explicitly handle the declaration, instead of using our macros.
  */
-
-int hsql_lex_init(yyscan_t* ptr_yy_globals)
-
+int yylex_init(yyscan_t* ptr_yy_globals)
 {
     if (ptr_yy_globals == NULL){
         errno = EINVAL;
         return 1;
     }
 
-    *ptr_yy_globals = (yyscan_t) hsql_alloc ( sizeof( struct yyguts_t ), NULL );
+    *ptr_yy_globals = (yyscan_t) yyalloc ( sizeof( struct yyguts_t ), NULL );
 
     if (*ptr_yy_globals == NULL){
         errno = ENOMEM;
@@ -5220,39 +3579,37 @@ int hsql_lex_init(yyscan_t* ptr_yy_globals)
     return yy_init_globals ( *ptr_yy_globals );
 }
 
-/* hsql_lex_init_extra has the same functionality as hsql_lex_init, but follows the
+/* yylex_init_extra has the same functionality as yylex_init, but follows the
  * convention of taking the scanner as the last argument. Note however, that
  * this is a *pointer* to a scanner, as it will be allocated by this call (and
  * is the reason, too, why this function also must handle its own declaration).
- * The user defined value in the first argument will be available to hsql_alloc in
+ * The user defined value in the first argument will be available to yyalloc in
  * the yyextra field.
  */
-
-int hsql_lex_init_extra(YY_EXTRA_TYPE yy_user_defined,yyscan_t* ptr_yy_globals )
-
+int yylex_init_extra( YY_EXTRA_TYPE yy_user_defined, yyscan_t* ptr_yy_globals )
 {
     struct yyguts_t dummy_yyguts;
 
-    hsql_set_extra (yy_user_defined, &dummy_yyguts);
+    yyset_extra (yy_user_defined, &dummy_yyguts);
 
     if (ptr_yy_globals == NULL){
         errno = EINVAL;
         return 1;
     }
-	
-    *ptr_yy_globals = (yyscan_t) hsql_alloc ( sizeof( struct yyguts_t ), &dummy_yyguts );
-	
+
+    *ptr_yy_globals = (yyscan_t) yyalloc ( sizeof( struct yyguts_t ), &dummy_yyguts );
+
     if (*ptr_yy_globals == NULL){
         errno = ENOMEM;
         return 1;
     }
-    
+
     /* By setting to 0xAA, we expose bugs in
     yy_init_globals. Leave at 0x00 for releases. */
     memset(*ptr_yy_globals,0x00,sizeof(struct yyguts_t));
-    
-    hsql_set_extra (yy_user_defined, *ptr_yy_globals);
-    
+
+    yyset_extra (yy_user_defined, *ptr_yy_globals);
+
     return yy_init_globals ( *ptr_yy_globals );
 }
 
@@ -5260,7 +3617,7 @@ static int yy_init_globals (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
     /* Initialization is the same as for the non-reentrant scanner.
-     * This function is called from hsql_lex_destroy(), so don't allocate here.
+     * This function is called from yylex_destroy(), so don't allocate here.
      */
 
     yyg->yy_buffer_stack = NULL;
@@ -5284,37 +3641,37 @@ static int yy_init_globals (yyscan_t yyscanner)
 #endif
 
     /* For future reference: Set errno on error, since we are called by
-     * hsql_lex_init()
+     * yylex_init()
      */
     return 0;
 }
 
-/* hsql_lex_destroy is for both reentrant and non-reentrant scanners. */
-int hsql_lex_destroy  (yyscan_t yyscanner)
+/* yylex_destroy is for both reentrant and non-reentrant scanners. */
+int yylex_destroy  (yyscan_t yyscanner)
 {
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
     /* Pop the buffer stack, destroying each element. */
 	while(YY_CURRENT_BUFFER){
-		hsql__delete_buffer(YY_CURRENT_BUFFER ,yyscanner );
+		yy_delete_buffer( YY_CURRENT_BUFFER , yyscanner );
 		YY_CURRENT_BUFFER_LVALUE = NULL;
-		hsql_pop_buffer_state(yyscanner);
+		yypop_buffer_state(yyscanner);
 	}
 
 	/* Destroy the stack itself. */
-	hsql_free(yyg->yy_buffer_stack ,yyscanner);
+	yyfree(yyg->yy_buffer_stack , yyscanner);
 	yyg->yy_buffer_stack = NULL;
 
     /* Destroy the start condition stack. */
-        hsql_free(yyg->yy_start_stack ,yyscanner );
+        yyfree( yyg->yy_start_stack , yyscanner );
         yyg->yy_start_stack = NULL;
 
     /* Reset the globals. This is important in a non-reentrant scanner so the next time
-     * hsql_lex() is called, initialization will occur. */
+     * yylex() is called, initialization will occur. */
     yy_init_globals( yyscanner);
 
     /* Destroy the main struct (reentrant only). */
-    hsql_free ( yyscanner , yyscanner );
+    yyfree ( yyscanner , yyscanner );
     yyscanner = NULL;
     return 0;
 }
@@ -5324,7 +3681,7 @@ int hsql_lex_destroy  (yyscan_t yyscanner)
  */
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char* s1, yyconst char * s2, int n , yyscan_t yyscanner)
+static void yy_flex_strncpy (char* s1, const char * s2, int n , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
@@ -5336,7 +3693,7 @@ static void yy_flex_strncpy (char* s1, yyconst char * s2, int n , yyscan_t yysca
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * s , yyscan_t yyscanner)
+static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 {
 	int n;
 	for ( n = 0; s[n]; ++n )
@@ -5346,14 +3703,14 @@ static int yy_flex_strlen (yyconst char * s , yyscan_t yyscanner)
 }
 #endif
 
-void *hsql_alloc (yy_size_t  size , yyscan_t yyscanner)
+void *yyalloc (yy_size_t  size , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
 	return malloc(size);
 }
 
-void *hsql_realloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
+void *yyrealloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
@@ -5368,18 +3725,17 @@ void *hsql_realloc  (void * ptr, yy_size_t  size , yyscan_t yyscanner)
 	return realloc(ptr, size);
 }
 
-void hsql_free (void * ptr , yyscan_t yyscanner)
+void yyfree (void * ptr , yyscan_t yyscanner)
 {
 	struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 	(void)yyg;
-	free( (char *) ptr );	/* see hsql_realloc() for (char *) cast */
+	free( (char *) ptr );	/* see yyrealloc() for (char *) cast */
 }
 
 #define YYTABLES_NAME "yytables"
 
 #line 288 "flex_lexer.l"
 
-
 /***************************
  ** Section 3: User code
  ***************************/
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 8beb9fd..76e89d4 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -13,11 +13,245 @@
 #define FLEX_SCANNER
 #define YY_FLEX_MAJOR_VERSION 2
 #define YY_FLEX_MINOR_VERSION 6
-#define YY_FLEX_SUBMINOR_VERSION 1
+#define YY_FLEX_SUBMINOR_VERSION 4
 #if YY_FLEX_SUBMINOR_VERSION > 0
 #define FLEX_BETA
 #endif
 
+#ifdef yy_create_buffer
+#define hsql__create_buffer_ALREADY_DEFINED
+#else
+#define yy_create_buffer hsql__create_buffer
+#endif
+
+#ifdef yy_delete_buffer
+#define hsql__delete_buffer_ALREADY_DEFINED
+#else
+#define yy_delete_buffer hsql__delete_buffer
+#endif
+
+#ifdef yy_scan_buffer
+#define hsql__scan_buffer_ALREADY_DEFINED
+#else
+#define yy_scan_buffer hsql__scan_buffer
+#endif
+
+#ifdef yy_scan_string
+#define hsql__scan_string_ALREADY_DEFINED
+#else
+#define yy_scan_string hsql__scan_string
+#endif
+
+#ifdef yy_scan_bytes
+#define hsql__scan_bytes_ALREADY_DEFINED
+#else
+#define yy_scan_bytes hsql__scan_bytes
+#endif
+
+#ifdef yy_init_buffer
+#define hsql__init_buffer_ALREADY_DEFINED
+#else
+#define yy_init_buffer hsql__init_buffer
+#endif
+
+#ifdef yy_flush_buffer
+#define hsql__flush_buffer_ALREADY_DEFINED
+#else
+#define yy_flush_buffer hsql__flush_buffer
+#endif
+
+#ifdef yy_load_buffer_state
+#define hsql__load_buffer_state_ALREADY_DEFINED
+#else
+#define yy_load_buffer_state hsql__load_buffer_state
+#endif
+
+#ifdef yy_switch_to_buffer
+#define hsql__switch_to_buffer_ALREADY_DEFINED
+#else
+#define yy_switch_to_buffer hsql__switch_to_buffer
+#endif
+
+#ifdef yypush_buffer_state
+#define hsql_push_buffer_state_ALREADY_DEFINED
+#else
+#define yypush_buffer_state hsql_push_buffer_state
+#endif
+
+#ifdef yypop_buffer_state
+#define hsql_pop_buffer_state_ALREADY_DEFINED
+#else
+#define yypop_buffer_state hsql_pop_buffer_state
+#endif
+
+#ifdef yyensure_buffer_stack
+#define hsql_ensure_buffer_stack_ALREADY_DEFINED
+#else
+#define yyensure_buffer_stack hsql_ensure_buffer_stack
+#endif
+
+#ifdef yylex
+#define hsql_lex_ALREADY_DEFINED
+#else
+#define yylex hsql_lex
+#endif
+
+#ifdef yyrestart
+#define hsql_restart_ALREADY_DEFINED
+#else
+#define yyrestart hsql_restart
+#endif
+
+#ifdef yylex_init
+#define hsql_lex_init_ALREADY_DEFINED
+#else
+#define yylex_init hsql_lex_init
+#endif
+
+#ifdef yylex_init_extra
+#define hsql_lex_init_extra_ALREADY_DEFINED
+#else
+#define yylex_init_extra hsql_lex_init_extra
+#endif
+
+#ifdef yylex_destroy
+#define hsql_lex_destroy_ALREADY_DEFINED
+#else
+#define yylex_destroy hsql_lex_destroy
+#endif
+
+#ifdef yyget_debug
+#define hsql_get_debug_ALREADY_DEFINED
+#else
+#define yyget_debug hsql_get_debug
+#endif
+
+#ifdef yyset_debug
+#define hsql_set_debug_ALREADY_DEFINED
+#else
+#define yyset_debug hsql_set_debug
+#endif
+
+#ifdef yyget_extra
+#define hsql_get_extra_ALREADY_DEFINED
+#else
+#define yyget_extra hsql_get_extra
+#endif
+
+#ifdef yyset_extra
+#define hsql_set_extra_ALREADY_DEFINED
+#else
+#define yyset_extra hsql_set_extra
+#endif
+
+#ifdef yyget_in
+#define hsql_get_in_ALREADY_DEFINED
+#else
+#define yyget_in hsql_get_in
+#endif
+
+#ifdef yyset_in
+#define hsql_set_in_ALREADY_DEFINED
+#else
+#define yyset_in hsql_set_in
+#endif
+
+#ifdef yyget_out
+#define hsql_get_out_ALREADY_DEFINED
+#else
+#define yyget_out hsql_get_out
+#endif
+
+#ifdef yyset_out
+#define hsql_set_out_ALREADY_DEFINED
+#else
+#define yyset_out hsql_set_out
+#endif
+
+#ifdef yyget_leng
+#define hsql_get_leng_ALREADY_DEFINED
+#else
+#define yyget_leng hsql_get_leng
+#endif
+
+#ifdef yyget_text
+#define hsql_get_text_ALREADY_DEFINED
+#else
+#define yyget_text hsql_get_text
+#endif
+
+#ifdef yyget_lineno
+#define hsql_get_lineno_ALREADY_DEFINED
+#else
+#define yyget_lineno hsql_get_lineno
+#endif
+
+#ifdef yyset_lineno
+#define hsql_set_lineno_ALREADY_DEFINED
+#else
+#define yyset_lineno hsql_set_lineno
+#endif
+
+#ifdef yyget_column
+#define hsql_get_column_ALREADY_DEFINED
+#else
+#define yyget_column hsql_get_column
+#endif
+
+#ifdef yyset_column
+#define hsql_set_column_ALREADY_DEFINED
+#else
+#define yyset_column hsql_set_column
+#endif
+
+#ifdef yywrap
+#define hsql_wrap_ALREADY_DEFINED
+#else
+#define yywrap hsql_wrap
+#endif
+
+#ifdef yyget_lval
+#define hsql_get_lval_ALREADY_DEFINED
+#else
+#define yyget_lval hsql_get_lval
+#endif
+
+#ifdef yyset_lval
+#define hsql_set_lval_ALREADY_DEFINED
+#else
+#define yyset_lval hsql_set_lval
+#endif
+
+#ifdef yyget_lloc
+#define hsql_get_lloc_ALREADY_DEFINED
+#else
+#define yyget_lloc hsql_get_lloc
+#endif
+
+#ifdef yyset_lloc
+#define hsql_set_lloc_ALREADY_DEFINED
+#else
+#define yyset_lloc hsql_set_lloc
+#endif
+
+#ifdef yyalloc
+#define hsql_alloc_ALREADY_DEFINED
+#else
+#define yyalloc hsql_alloc
+#endif
+
+#ifdef yyrealloc
+#define hsql_realloc_ALREADY_DEFINED
+#else
+#define yyrealloc hsql_realloc
+#endif
+
+#ifdef yyfree
+#define hsql_free_ALREADY_DEFINED
+#else
+#define yyfree hsql_free
+#endif
+
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
@@ -88,10 +322,16 @@ typedef unsigned int flex_uint32_t;
 #define UINT32_MAX             (4294967295U)
 #endif
 
+#ifndef SIZE_MAX
+#define SIZE_MAX               (~(size_t)0)
+#endif
+
 #endif /* ! C99 */
 
 #endif /* ! FLEXINT_H */
 
+/* begin standard C++ headers. */
+
 /* TODO: this is always defined, so inline it */
 #define yyconst const
 
@@ -181,7 +421,7 @@ struct yy_buffer_state
 
     int yy_bs_lineno; /**< The line count. */
     int yy_bs_column; /**< The column count. */
-    
+
 	/* Whether to try to fill the input buffer when we reach the
 	 * end of it.
 	 */
@@ -192,21 +432,21 @@ struct yy_buffer_state
 	};
 #endif /* !YY_STRUCT_YY_BUFFER_STATE */
 
-void hsql_restart (FILE *input_file ,yyscan_t yyscanner );
-void hsql__switch_to_buffer (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__create_buffer (FILE *file,int size ,yyscan_t yyscanner );
-void hsql__delete_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql__flush_buffer (YY_BUFFER_STATE b ,yyscan_t yyscanner );
-void hsql_push_buffer_state (YY_BUFFER_STATE new_buffer ,yyscan_t yyscanner );
-void hsql_pop_buffer_state (yyscan_t yyscanner );
+void yyrestart ( FILE *input_file , yyscan_t yyscanner );
+void yy_switch_to_buffer ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_create_buffer ( FILE *file, int size , yyscan_t yyscanner );
+void yy_delete_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yy_flush_buffer ( YY_BUFFER_STATE b , yyscan_t yyscanner );
+void yypush_buffer_state ( YY_BUFFER_STATE new_buffer , yyscan_t yyscanner );
+void yypop_buffer_state ( yyscan_t yyscanner );
 
-YY_BUFFER_STATE hsql__scan_buffer (char *base,yy_size_t size ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_string (yyconst char *yy_str ,yyscan_t yyscanner );
-YY_BUFFER_STATE hsql__scan_bytes (yyconst char *bytes,int len ,yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_buffer ( char *base, yy_size_t size , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_string ( const char *yy_str , yyscan_t yyscanner );
+YY_BUFFER_STATE yy_scan_bytes ( const char *bytes, int len , yyscan_t yyscanner );
 
-void *hsql_alloc (yy_size_t ,yyscan_t yyscanner );
-void *hsql_realloc (void *,yy_size_t ,yyscan_t yyscanner );
-void hsql_free (void * ,yyscan_t yyscanner );
+void *yyalloc ( yy_size_t , yyscan_t yyscanner );
+void *yyrealloc ( void *, yy_size_t , yyscan_t yyscanner );
+void yyfree ( void * , yyscan_t yyscanner );
 
 /* Begin user sect3 */
 
@@ -234,50 +474,50 @@ void hsql_free (void * ,yyscan_t yyscanner );
 #define YY_EXTRA_TYPE void *
 #endif
 
-int hsql_lex_init (yyscan_t* scanner);
+int yylex_init (yyscan_t* scanner);
 
-int hsql_lex_init_extra (YY_EXTRA_TYPE user_defined,yyscan_t* scanner);
+int yylex_init_extra ( YY_EXTRA_TYPE user_defined, yyscan_t* scanner);
 
 /* Accessor methods to globals.
    These are made visible to non-reentrant scanners for convenience. */
 
-int hsql_lex_destroy (yyscan_t yyscanner );
+int yylex_destroy ( yyscan_t yyscanner );
 
-int hsql_get_debug (yyscan_t yyscanner );
+int yyget_debug ( yyscan_t yyscanner );
 
-void hsql_set_debug (int debug_flag ,yyscan_t yyscanner );
+void yyset_debug ( int debug_flag , yyscan_t yyscanner );
 
-YY_EXTRA_TYPE hsql_get_extra (yyscan_t yyscanner );
+YY_EXTRA_TYPE yyget_extra ( yyscan_t yyscanner );
 
-void hsql_set_extra (YY_EXTRA_TYPE user_defined ,yyscan_t yyscanner );
+void yyset_extra ( YY_EXTRA_TYPE user_defined , yyscan_t yyscanner );
 
-FILE *hsql_get_in (yyscan_t yyscanner );
+FILE *yyget_in ( yyscan_t yyscanner );
 
-void hsql_set_in  (FILE * _in_str ,yyscan_t yyscanner );
+void yyset_in  ( FILE * _in_str , yyscan_t yyscanner );
 
-FILE *hsql_get_out (yyscan_t yyscanner );
+FILE *yyget_out ( yyscan_t yyscanner );
 
-void hsql_set_out  (FILE * _out_str ,yyscan_t yyscanner );
+void yyset_out  ( FILE * _out_str , yyscan_t yyscanner );
 
-			int hsql_get_leng (yyscan_t yyscanner );
+			int yyget_leng ( yyscan_t yyscanner );
 
-char *hsql_get_text (yyscan_t yyscanner );
+char *yyget_text ( yyscan_t yyscanner );
 
-int hsql_get_lineno (yyscan_t yyscanner );
+int yyget_lineno ( yyscan_t yyscanner );
 
-void hsql_set_lineno (int _line_number ,yyscan_t yyscanner );
+void yyset_lineno ( int _line_number , yyscan_t yyscanner );
 
-int hsql_get_column  (yyscan_t yyscanner );
+int yyget_column  ( yyscan_t yyscanner );
 
-void hsql_set_column (int _column_no ,yyscan_t yyscanner );
+void yyset_column ( int _column_no , yyscan_t yyscanner );
 
-YYSTYPE * hsql_get_lval (yyscan_t yyscanner );
+YYSTYPE * yyget_lval ( yyscan_t yyscanner );
 
-void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
+void yyset_lval ( YYSTYPE * yylval_param , yyscan_t yyscanner );
 
-       YYLTYPE *hsql_get_lloc (yyscan_t yyscanner );
+       YYLTYPE *yyget_lloc ( yyscan_t yyscanner );
     
-        void hsql_set_lloc (YYLTYPE * yylloc_param ,yyscan_t yyscanner );
+        void yyset_lloc ( YYLTYPE * yylloc_param , yyscan_t yyscanner );
     
 /* Macros after this point can all be overridden by user definitions in
  * section 1.
@@ -285,18 +525,18 @@ void hsql_set_lval (YYSTYPE * yylval_param ,yyscan_t yyscanner );
 
 #ifndef YY_SKIP_YYWRAP
 #ifdef __cplusplus
-extern "C" int hsql_wrap (yyscan_t yyscanner );
+extern "C" int yywrap ( yyscan_t yyscanner );
 #else
-extern int hsql_wrap (yyscan_t yyscanner );
+extern int yywrap ( yyscan_t yyscanner );
 #endif
 #endif
 
 #ifndef yytext_ptr
-static void yy_flex_strncpy (char *,yyconst char *,int ,yyscan_t yyscanner);
+static void yy_flex_strncpy ( char *, const char *, int , yyscan_t yyscanner);
 #endif
 
 #ifdef YY_NEED_STRLEN
-static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
+static int yy_flex_strlen ( const char * , yyscan_t yyscanner);
 #endif
 
 #ifndef YY_NO_INPUT
@@ -324,10 +564,10 @@ static int yy_flex_strlen (yyconst char * ,yyscan_t yyscanner);
 #ifndef YY_DECL
 #define YY_DECL_IS_OURS 1
 
-extern int hsql_lex \
-               (YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yyscanner);
+extern int yylex \
+               (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner);
 
-#define YY_DECL int hsql_lex \
+#define YY_DECL int yylex \
                (YYSTYPE * yylval_param, YYLTYPE * yylloc_param , yyscan_t yyscanner)
 #endif /* !YY_DECL */
 
@@ -345,9 +585,154 @@ extern int hsql_lex \
 #undef YY_DECL
 #endif
 
+#ifndef hsql__create_buffer_ALREADY_DEFINED
+#undef yy_create_buffer
+#endif
+#ifndef hsql__delete_buffer_ALREADY_DEFINED
+#undef yy_delete_buffer
+#endif
+#ifndef hsql__scan_buffer_ALREADY_DEFINED
+#undef yy_scan_buffer
+#endif
+#ifndef hsql__scan_string_ALREADY_DEFINED
+#undef yy_scan_string
+#endif
+#ifndef hsql__scan_bytes_ALREADY_DEFINED
+#undef yy_scan_bytes
+#endif
+#ifndef hsql__init_buffer_ALREADY_DEFINED
+#undef yy_init_buffer
+#endif
+#ifndef hsql__flush_buffer_ALREADY_DEFINED
+#undef yy_flush_buffer
+#endif
+#ifndef hsql__load_buffer_state_ALREADY_DEFINED
+#undef yy_load_buffer_state
+#endif
+#ifndef hsql__switch_to_buffer_ALREADY_DEFINED
+#undef yy_switch_to_buffer
+#endif
+#ifndef hsql_push_buffer_state_ALREADY_DEFINED
+#undef yypush_buffer_state
+#endif
+#ifndef hsql_pop_buffer_state_ALREADY_DEFINED
+#undef yypop_buffer_state
+#endif
+#ifndef hsql_ensure_buffer_stack_ALREADY_DEFINED
+#undef yyensure_buffer_stack
+#endif
+#ifndef hsql_lex_ALREADY_DEFINED
+#undef yylex
+#endif
+#ifndef hsql_restart_ALREADY_DEFINED
+#undef yyrestart
+#endif
+#ifndef hsql_lex_init_ALREADY_DEFINED
+#undef yylex_init
+#endif
+#ifndef hsql_lex_init_extra_ALREADY_DEFINED
+#undef yylex_init_extra
+#endif
+#ifndef hsql_lex_destroy_ALREADY_DEFINED
+#undef yylex_destroy
+#endif
+#ifndef hsql_get_debug_ALREADY_DEFINED
+#undef yyget_debug
+#endif
+#ifndef hsql_set_debug_ALREADY_DEFINED
+#undef yyset_debug
+#endif
+#ifndef hsql_get_extra_ALREADY_DEFINED
+#undef yyget_extra
+#endif
+#ifndef hsql_set_extra_ALREADY_DEFINED
+#undef yyset_extra
+#endif
+#ifndef hsql_get_in_ALREADY_DEFINED
+#undef yyget_in
+#endif
+#ifndef hsql_set_in_ALREADY_DEFINED
+#undef yyset_in
+#endif
+#ifndef hsql_get_out_ALREADY_DEFINED
+#undef yyget_out
+#endif
+#ifndef hsql_set_out_ALREADY_DEFINED
+#undef yyset_out
+#endif
+#ifndef hsql_get_leng_ALREADY_DEFINED
+#undef yyget_leng
+#endif
+#ifndef hsql_get_text_ALREADY_DEFINED
+#undef yyget_text
+#endif
+#ifndef hsql_get_lineno_ALREADY_DEFINED
+#undef yyget_lineno
+#endif
+#ifndef hsql_set_lineno_ALREADY_DEFINED
+#undef yyset_lineno
+#endif
+#ifndef hsql_get_column_ALREADY_DEFINED
+#undef yyget_column
+#endif
+#ifndef hsql_set_column_ALREADY_DEFINED
+#undef yyset_column
+#endif
+#ifndef hsql_wrap_ALREADY_DEFINED
+#undef yywrap
+#endif
+#ifndef hsql_get_lval_ALREADY_DEFINED
+#undef yyget_lval
+#endif
+#ifndef hsql_set_lval_ALREADY_DEFINED
+#undef yyset_lval
+#endif
+#ifndef hsql_get_lloc_ALREADY_DEFINED
+#undef yyget_lloc
+#endif
+#ifndef hsql_set_lloc_ALREADY_DEFINED
+#undef yyset_lloc
+#endif
+#ifndef hsql_alloc_ALREADY_DEFINED
+#undef yyalloc
+#endif
+#ifndef hsql_realloc_ALREADY_DEFINED
+#undef yyrealloc
+#endif
+#ifndef hsql_free_ALREADY_DEFINED
+#undef yyfree
+#endif
+#ifndef hsql_text_ALREADY_DEFINED
+#undef yytext
+#endif
+#ifndef hsql_leng_ALREADY_DEFINED
+#undef yyleng
+#endif
+#ifndef hsql_in_ALREADY_DEFINED
+#undef yyin
+#endif
+#ifndef hsql_out_ALREADY_DEFINED
+#undef yyout
+#endif
+#ifndef hsql__flex_debug_ALREADY_DEFINED
+#undef yy_flex_debug
+#endif
+#ifndef hsql_lineno_ALREADY_DEFINED
+#undef yylineno
+#endif
+#ifndef hsql_tables_fload_ALREADY_DEFINED
+#undef yytables_fload
+#endif
+#ifndef hsql_tables_destroy_ALREADY_DEFINED
+#undef yytables_destroy
+#endif
+#ifndef hsql_TABLES_NAME_ALREADY_DEFINED
+#undef yyTABLES_NAME
+#endif
+
 #line 288 "flex_lexer.l"
 
 
-#line 352 "flex_lexer.h"
+#line 737 "flex_lexer.h"
 #undef hsql_IN_HEADER
 #endif /* hsql_HEADER_H */
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index f4cd348..6f51dcf 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -49,7 +49,7 @@ static thread_local std::stringstream strbuf;
 /* %option nodefault */
 
 
-%s COMMENT
+%x COMMENT
 
 /***************************
  ** Section 3: Rules
-- 
2.43.0


From b88734bb5eb832da2a4db6be641da4b1fbbd8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 05/25] fix: reject unknown characters and unterminated strings

The lexer reported them as the end of the text, so everything before them was
accepted as if the rest were not there.
---
 src/parser/flex_lexer.cpp | 399 +++++++++++++++++++-------------------
 src/parser/flex_lexer.h   |   2 +-
 src/parser/flex_lexer.l   |   7 +-
 3 files changed, 207 insertions(+), 201 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 3400b99..4312d62 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -1243,9 +1243,12 @@ static const flex_int16_t yy_chk[1549] =
 
 #define TOKEN(name) { return SQL_##name; }
 
+// Token that is not part of the grammar (bison reserves 257 for it), so that the text is rejected.
+#define INVALID_TOKEN 257
+
 static thread_local std::stringstream strbuf;
 
-#line 1249 "flex_lexer.cpp"
+#line 1252 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1259,7 +1262,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1263 "flex_lexer.cpp"
+#line 1266 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1543,10 +1546,10 @@ YY_DECL
 		}
 
 	{
-#line 57 "flex_lexer.l"
+#line 60 "flex_lexer.l"
 
 
-#line 1550 "flex_lexer.cpp"
+#line 1553 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1601,899 +1604,899 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 59 "flex_lexer.l"
+#line 62 "flex_lexer.l"
 BEGIN(COMMENT);
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 60 "flex_lexer.l"
+#line 63 "flex_lexer.l"
 /* skipping comment content until a end of line is read */;
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 61 "flex_lexer.l"
+#line 64 "flex_lexer.l"
 BEGIN(INITIAL);
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 63 "flex_lexer.l"
+#line 66 "flex_lexer.l"
 /* skip whitespace */;
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 65 "flex_lexer.l"
+#line 68 "flex_lexer.l"
 TOKEN(ADD)
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 66 "flex_lexer.l"
+#line 69 "flex_lexer.l"
 TOKEN(AFTER)
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 67 "flex_lexer.l"
+#line 70 "flex_lexer.l"
 TOKEN(ALL)
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 68 "flex_lexer.l"
+#line 71 "flex_lexer.l"
 TOKEN(ALTER)
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 69 "flex_lexer.l"
+#line 72 "flex_lexer.l"
 TOKEN(ANALYZE)
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 70 "flex_lexer.l"
+#line 73 "flex_lexer.l"
 TOKEN(AND)
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 71 "flex_lexer.l"
+#line 74 "flex_lexer.l"
 TOKEN(ARRAY)
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 72 "flex_lexer.l"
+#line 75 "flex_lexer.l"
 TOKEN(AS)
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 73 "flex_lexer.l"
+#line 76 "flex_lexer.l"
 TOKEN(ASC)
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 74 "flex_lexer.l"
+#line 77 "flex_lexer.l"
 TOKEN(BEFORE)
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 75 "flex_lexer.l"
+#line 78 "flex_lexer.l"
 TOKEN(BEGIN)
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 76 "flex_lexer.l"
+#line 79 "flex_lexer.l"
 TOKEN(BETWEEN)
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 77 "flex_lexer.l"
+#line 80 "flex_lexer.l"
 TOKEN(BIGINT)
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 78 "flex_lexer.l"
+#line 81 "flex_lexer.l"
 TOKEN(BOOLEAN)
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 79 "flex_lexer.l"
+#line 82 "flex_lexer.l"
 TOKEN(BY)
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 80 "flex_lexer.l"
+#line 83 "flex_lexer.l"
 TOKEN(CALL)
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 81 "flex_lexer.l"
+#line 84 "flex_lexer.l"
 TOKEN(CASCADE)
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 82 "flex_lexer.l"
+#line 85 "flex_lexer.l"
 TOKEN(CASE)
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 83 "flex_lexer.l"
+#line 86 "flex_lexer.l"
 TOKEN(CAST)
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 84 "flex_lexer.l"
+#line 87 "flex_lexer.l"
 TOKEN(CHAR)
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 85 "flex_lexer.l"
+#line 88 "flex_lexer.l"
 TOKEN(COLUMN)
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 86 "flex_lexer.l"
+#line 89 "flex_lexer.l"
 TOKEN(COLUMNS)
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 87 "flex_lexer.l"
+#line 90 "flex_lexer.l"
 TOKEN(COMMIT)
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 88 "flex_lexer.l"
+#line 91 "flex_lexer.l"
 TOKEN(CONTROL)
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 89 "flex_lexer.l"
+#line 92 "flex_lexer.l"
 TOKEN(COPY)
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 90 "flex_lexer.l"
+#line 93 "flex_lexer.l"
 TOKEN(CREATE)
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 91 "flex_lexer.l"
+#line 94 "flex_lexer.l"
 TOKEN(CROSS)
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 92 "flex_lexer.l"
+#line 95 "flex_lexer.l"
 TOKEN(DATE)
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 93 "flex_lexer.l"
+#line 96 "flex_lexer.l"
 TOKEN(DATETIME)
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 94 "flex_lexer.l"
+#line 97 "flex_lexer.l"
 TOKEN(DAY)
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 95 "flex_lexer.l"
+#line 98 "flex_lexer.l"
 TOKEN(DAYS)
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 96 "flex_lexer.l"
+#line 99 "flex_lexer.l"
 TOKEN(DEALLOCATE)
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 97 "flex_lexer.l"
+#line 100 "flex_lexer.l"
 TOKEN(DECIMAL)
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 98 "flex_lexer.l"
+#line 101 "flex_lexer.l"
 TOKEN(DEFAULT)
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 99 "flex_lexer.l"
+#line 102 "flex_lexer.l"
 TOKEN(DELETE)
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 100 "flex_lexer.l"
+#line 103 "flex_lexer.l"
 TOKEN(DELTA)
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 101 "flex_lexer.l"
+#line 104 "flex_lexer.l"
 TOKEN(DESC)
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 102 "flex_lexer.l"
+#line 105 "flex_lexer.l"
 TOKEN(DESCRIBE)
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 103 "flex_lexer.l"
+#line 106 "flex_lexer.l"
 TOKEN(DIRECT)
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 104 "flex_lexer.l"
+#line 107 "flex_lexer.l"
 TOKEN(DISTINCT)
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 105 "flex_lexer.l"
+#line 108 "flex_lexer.l"
 TOKEN(DOUBLE)
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 106 "flex_lexer.l"
+#line 109 "flex_lexer.l"
 TOKEN(DROP)
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 107 "flex_lexer.l"
+#line 110 "flex_lexer.l"
 TOKEN(ELSE)
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 108 "flex_lexer.l"
+#line 111 "flex_lexer.l"
 TOKEN(ENCODING)
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 109 "flex_lexer.l"
+#line 112 "flex_lexer.l"
 TOKEN(END)
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 110 "flex_lexer.l"
+#line 113 "flex_lexer.l"
 TOKEN(ESCAPE)
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 111 "flex_lexer.l"
+#line 114 "flex_lexer.l"
 TOKEN(EXCEPT)
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 112 "flex_lexer.l"
+#line 115 "flex_lexer.l"
 TOKEN(EXECUTE)
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 113 "flex_lexer.l"
+#line 116 "flex_lexer.l"
 TOKEN(EXISTS)
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 114 "flex_lexer.l"
+#line 117 "flex_lexer.l"
 TOKEN(EXPLAIN)
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 115 "flex_lexer.l"
+#line 118 "flex_lexer.l"
 TOKEN(EXTRACT)
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 116 "flex_lexer.l"
+#line 119 "flex_lexer.l"
 TOKEN(FALSE)
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 117 "flex_lexer.l"
+#line 120 "flex_lexer.l"
 TOKEN(FILE)
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 118 "flex_lexer.l"
+#line 121 "flex_lexer.l"
 TOKEN(FLOAT)
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 119 "flex_lexer.l"
+#line 122 "flex_lexer.l"
 TOKEN(FOLLOWING)
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 120 "flex_lexer.l"
+#line 123 "flex_lexer.l"
 TOKEN(FOR)
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 121 "flex_lexer.l"
+#line 124 "flex_lexer.l"
 TOKEN(FOREIGN)
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 122 "flex_lexer.l"
+#line 125 "flex_lexer.l"
 TOKEN(FORMAT)
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 123 "flex_lexer.l"
+#line 126 "flex_lexer.l"
 TOKEN(FROM)
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 124 "flex_lexer.l"
+#line 127 "flex_lexer.l"
 TOKEN(FULL)
 	YY_BREAK
 case 65:
 YY_RULE_SETUP
-#line 125 "flex_lexer.l"
+#line 128 "flex_lexer.l"
 TOKEN(GLOBAL)
 	YY_BREAK
 case 66:
 YY_RULE_SETUP
-#line 126 "flex_lexer.l"
+#line 129 "flex_lexer.l"
 TOKEN(GROUP)
 	YY_BREAK
 case 67:
 YY_RULE_SETUP
-#line 127 "flex_lexer.l"
+#line 130 "flex_lexer.l"
 TOKEN(GROUPS)
 	YY_BREAK
 case 68:
 YY_RULE_SETUP
-#line 128 "flex_lexer.l"
+#line 131 "flex_lexer.l"
 TOKEN(HASH)
 	YY_BREAK
 case 69:
 YY_RULE_SETUP
-#line 129 "flex_lexer.l"
+#line 132 "flex_lexer.l"
 TOKEN(HAVING)
 	YY_BREAK
 case 70:
 YY_RULE_SETUP
-#line 130 "flex_lexer.l"
+#line 133 "flex_lexer.l"
 TOKEN(HINT)
 	YY_BREAK
 case 71:
 YY_RULE_SETUP
-#line 131 "flex_lexer.l"
+#line 134 "flex_lexer.l"
 TOKEN(HOUR)
 	YY_BREAK
 case 72:
 YY_RULE_SETUP
-#line 132 "flex_lexer.l"
+#line 135 "flex_lexer.l"
 TOKEN(HOURS)
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 133 "flex_lexer.l"
+#line 136 "flex_lexer.l"
 TOKEN(IF)
 	YY_BREAK
 case 74:
 YY_RULE_SETUP
-#line 134 "flex_lexer.l"
+#line 137 "flex_lexer.l"
 TOKEN(ILIKE)
 	YY_BREAK
 case 75:
 YY_RULE_SETUP
-#line 135 "flex_lexer.l"
+#line 138 "flex_lexer.l"
 TOKEN(IMPORT)
 	YY_BREAK
 case 76:
 YY_RULE_SETUP
-#line 136 "flex_lexer.l"
+#line 139 "flex_lexer.l"
 TOKEN(IN)
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
-#line 137 "flex_lexer.l"
+#line 140 "flex_lexer.l"
 TOKEN(INDEX)
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-#line 138 "flex_lexer.l"
+#line 141 "flex_lexer.l"
 TOKEN(INNER)
 	YY_BREAK
 case 79:
 YY_RULE_SETUP
-#line 139 "flex_lexer.l"
+#line 142 "flex_lexer.l"
 TOKEN(INSERT)
 	YY_BREAK
 case 80:
 YY_RULE_SETUP
-#line 140 "flex_lexer.l"
+#line 143 "flex_lexer.l"
 TOKEN(INT)
 	YY_BREAK
 case 81:
 YY_RULE_SETUP
-#line 141 "flex_lexer.l"
+#line 144 "flex_lexer.l"
 TOKEN(INTEGER)
 	YY_BREAK
 case 82:
 YY_RULE_SETUP
-#line 142 "flex_lexer.l"
+#line 145 "flex_lexer.l"
 TOKEN(INTERSECT)
 	YY_BREAK
 case 83:
 YY_RULE_SETUP
-#line 143 "flex_lexer.l"
+#line 146 "flex_lexer.l"
 TOKEN(INTERVAL)
 	YY_BREAK
 case 84:
 YY_RULE_SETUP
-#line 144 "flex_lexer.l"
+#line 147 "flex_lexer.l"
 TOKEN(INTO)
 	YY_BREAK
 case 85:
 YY_RULE_SETUP
-#line 145 "flex_lexer.l"
+#line 148 "flex_lexer.l"
 TOKEN(IS)
 	YY_BREAK
 case 86:
 YY_RULE_SETUP
-#line 146 "flex_lexer.l"
+#line 149 "flex_lexer.l"
 TOKEN(ISNULL)
 	YY_BREAK
 case 87:
 YY_RULE_SETUP
-#line 147 "flex_lexer.l"
+#line 150 "flex_lexer.l"
 TOKEN(JOIN)
 	YY_BREAK
 case 88:
 YY_RULE_SETUP
-#line 148 "flex_lexer.l"
+#line 151 "flex_lexer.l"
 TOKEN(KEY)
 	YY_BREAK
 case 89:
 YY_RULE_SETUP
-#line 149 "flex_lexer.l"
+#line 152 "flex_lexer.l"
 TOKEN(LEFT)
 	YY_BREAK
 case 90:
 YY_RULE_SETUP
-#line 150 "flex_lexer.l"
+#line 153 "flex_lexer.l"
 TOKEN(LIKE)
 	YY_BREAK
 case 91:
 YY_RULE_SETUP
-#line 151 "flex_lexer.l"
+#line 154 "flex_lexer.l"
 TOKEN(LIMIT)
 	YY_BREAK
 case 92:
 YY_RULE_SETUP
-#line 152 "flex_lexer.l"
+#line 155 "flex_lexer.l"
 TOKEN(LOAD)
 	YY_BREAK
 case 93:
 YY_RULE_SETUP
-#line 153 "flex_lexer.l"
+#line 156 "flex_lexer.l"
 TOKEN(LOCAL)
 	YY_BREAK
 case 94:
 YY_RULE_SETUP
-#line 154 "flex_lexer.l"
+#line 157 "flex_lexer.l"
 TOKEN(LOCKED)
 	YY_BREAK
 case 95:
 YY_RULE_SETUP
-#line 155 "flex_lexer.l"
+#line 158 "flex_lexer.l"
 TOKEN(LONG)
 	YY_BREAK
 case 96:
 YY_RULE_SETUP
-#line 156 "flex_lexer.l"
+#line 159 "flex_lexer.l"
 TOKEN(MERGE)
 	YY_BREAK
 case 97:
 YY_RULE_SETUP
-#line 157 "flex_lexer.l"
+#line 160 "flex_lexer.l"
 TOKEN(MINUS)
 	YY_BREAK
 case 98:
 YY_RULE_SETUP
-#line 158 "flex_lexer.l"
+#line 161 "flex_lexer.l"
 TOKEN(MINUTE)
 	YY_BREAK
 case 99:
 YY_RULE_SETUP
-#line 159 "flex_lexer.l"
+#line 162 "flex_lexer.l"
 TOKEN(MINUTES)
 	YY_BREAK
 case 100:
 YY_RULE_SETUP
-#line 160 "flex_lexer.l"
+#line 163 "flex_lexer.l"
 TOKEN(MONTH)
 	YY_BREAK
 case 101:
 YY_RULE_SETUP
-#line 161 "flex_lexer.l"
+#line 164 "flex_lexer.l"
 TOKEN(MONTHS)
 	YY_BREAK
 case 102:
 YY_RULE_SETUP
-#line 162 "flex_lexer.l"
+#line 165 "flex_lexer.l"
 TOKEN(NATURAL)
 	YY_BREAK
 case 103:
 YY_RULE_SETUP
-#line 163 "flex_lexer.l"
+#line 166 "flex_lexer.l"
 TOKEN(NO)
 	YY_BREAK
 case 104:
 YY_RULE_SETUP
-#line 164 "flex_lexer.l"
+#line 167 "flex_lexer.l"
 TOKEN(NOT)
 	YY_BREAK
 case 105:
 YY_RULE_SETUP
-#line 165 "flex_lexer.l"
+#line 168 "flex_lexer.l"
 TOKEN(NOWAIT)
 	YY_BREAK
 case 106:
 YY_RULE_SETUP
-#line 166 "flex_lexer.l"
+#line 169 "flex_lexer.l"
 TOKEN(NULL)
 	YY_BREAK
 case 107:
 YY_RULE_SETUP
-#line 167 "flex_lexer.l"
+#line 170 "flex_lexer.l"
 TOKEN(NVARCHAR)
 	YY_BREAK
 case 108:
 YY_RULE_SETUP
-#line 168 "flex_lexer.l"
+#line 171 "flex_lexer.l"
 TOKEN(OF)
 	YY_BREAK
 case 109:
 YY_RULE_SETUP
-#line 169 "flex_lexer.l"
+#line 172 "flex_lexer.l"
 TOKEN(OFF)
 	YY_BREAK
 case 110:
 YY_RULE_SETUP
-#line 170 "flex_lexer.l"
+#line 173 "flex_lexer.l"
 TOKEN(OFFSET)
 	YY_BREAK
 case 111:
 YY_RULE_SETUP
-#line 171 "flex_lexer.l"
+#line 174 "flex_lexer.l"
 TOKEN(ON)
 	YY_BREAK
 case 112:
 YY_RULE_SETUP
-#line 172 "flex_lexer.l"
+#line 175 "flex_lexer.l"
 TOKEN(OR)
 	YY_BREAK
 case 113:
 YY_RULE_SETUP
-#line 173 "flex_lexer.l"
+#line 176 "flex_lexer.l"
 TOKEN(ORDER)
 	YY_BREAK
 case 114:
 YY_RULE_SETUP
-#line 174 "flex_lexer.l"
+#line 177 "flex_lexer.l"
 TOKEN(OUTER)
 	YY_BREAK
 case 115:
 YY_RULE_SETUP
-#line 175 "flex_lexer.l"
+#line 178 "flex_lexer.l"
 TOKEN(OVER)
 	YY_BREAK
 case 116:
 YY_RULE_SETUP
-#line 176 "flex_lexer.l"
+#line 179 "flex_lexer.l"
 TOKEN(PARAMETERS)
 	YY_BREAK
 case 117:
 YY_RULE_SETUP
-#line 177 "flex_lexer.l"
+#line 180 "flex_lexer.l"
 TOKEN(PARTITION)
 	YY_BREAK
 case 118:
 YY_RULE_SETUP
-#line 178 "flex_lexer.l"
+#line 181 "flex_lexer.l"
 TOKEN(PLAN)
 	YY_BREAK
 case 119:
 YY_RULE_SETUP
-#line 179 "flex_lexer.l"
+#line 182 "flex_lexer.l"
 TOKEN(PRECEDING)
 	YY_BREAK
 case 120:
 YY_RULE_SETUP
-#line 180 "flex_lexer.l"
+#line 183 "flex_lexer.l"
 TOKEN(PREPARE)
 	YY_BREAK
 case 121:
 YY_RULE_SETUP
-#line 181 "flex_lexer.l"
+#line 184 "flex_lexer.l"
 TOKEN(PRIMARY)
 	YY_BREAK
 case 122:
 YY_RULE_SETUP
-#line 182 "flex_lexer.l"
+#line 185 "flex_lexer.l"
 TOKEN(RANGE)
 	YY_BREAK
 case 123:
 YY_RULE_SETUP
-#line 183 "flex_lexer.l"
+#line 186 "flex_lexer.l"
 TOKEN(REAL)
 	YY_BREAK
 case 124:
 YY_RULE_SETUP
-#line 184 "flex_lexer.l"
+#line 187 "flex_lexer.l"
 TOKEN(REFERENCES)
 	YY_BREAK
 case 125:
 YY_RULE_SETUP
-#line 185 "flex_lexer.l"
+#line 188 "flex_lexer.l"
 TOKEN(RENAME)
 	YY_BREAK
 case 126:
 YY_RULE_SETUP
-#line 186 "flex_lexer.l"
+#line 189 "flex_lexer.l"
 TOKEN(RESTRICT)
 	YY_BREAK
 case 127:
 YY_RULE_SETUP
-#line 187 "flex_lexer.l"
+#line 190 "flex_lexer.l"
 TOKEN(RIGHT)
 	YY_BREAK
 case 128:
 YY_RULE_SETUP
-#line 188 "flex_lexer.l"
+#line 191 "flex_lexer.l"
 TOKEN(ROLLBACK)
 	YY_BREAK
 case 129:
 YY_RULE_SETUP
-#line 189 "flex_lexer.l"
+#line 192 "flex_lexer.l"
 TOKEN(ROWS)
 	YY_BREAK
 case 130:
 YY_RULE_SETUP
-#line 190 "flex_lexer.l"
+#line 193 "flex_lexer.l"
 TOKEN(SCHEMA)
 	YY_BREAK
 case 131:
 YY_RULE_SETUP
-#line 191 "flex_lexer.l"
+#line 194 "flex_lexer.l"
 TOKEN(SCHEMAS)
 	YY_BREAK
 case 132:
 YY_RULE_SETUP
-#line 192 "flex_lexer.l"
+#line 195 "flex_lexer.l"
 TOKEN(SECOND)
 	YY_BREAK
 case 133:
 YY_RULE_SETUP
-#line 193 "flex_lexer.l"
+#line 196 "flex_lexer.l"
 TOKEN(SECONDS)
 	YY_BREAK
 case 134:
 YY_RULE_SETUP
-#line 194 "flex_lexer.l"
+#line 197 "flex_lexer.l"
 TOKEN(SELECT)
 	YY_BREAK
 case 135:
 YY_RULE_SETUP
-#line 195 "flex_lexer.l"
+#line 198 "flex_lexer.l"
 TOKEN(SET)
 	YY_BREAK
 case 136:
 YY_RULE_SETUP
-#line 196 "flex_lexer.l"
+#line 199 "flex_lexer.l"
 TOKEN(SHARE)
 	YY_BREAK
 case 137:
 YY_RULE_SETUP
-#line 197 "flex_lexer.l"
+#line 200 "flex_lexer.l"
 TOKEN(SHOW)
 	YY_BREAK
 case 138:
 YY_RULE_SETUP
-#line 198 "flex_lexer.l"
+#line 201 "flex_lexer.l"
 TOKEN(SKIP)
 	YY_BREAK
 case 139:
 YY_RULE_SETUP
-#line 199 "flex_lexer.l"
+#line 202 "flex_lexer.l"
 TOKEN(SMALLINT)
 	YY_BREAK
 case 140:
 YY_RULE_SETUP
-#line 200 "flex_lexer.l"
+#line 203 "flex_lexer.l"
 TOKEN(SORTED)
 	YY_BREAK
 case 141:
 YY_RULE_SETUP
-#line 201 "flex_lexer.l"
+#line 204 "flex_lexer.l"
 TOKEN(SPATIAL)
 	YY_BREAK
 case 142:
 YY_RULE_SETUP
-#line 202 "flex_lexer.l"
+#line 205 "flex_lexer.l"
 TOKEN(TABLE)
 	YY_BREAK
 case 143:
 YY_RULE_SETUP
-#line 203 "flex_lexer.l"
+#line 206 "flex_lexer.l"
 TOKEN(TABLES)
 	YY_BREAK
 case 144:
 YY_RULE_SETUP
-#line 204 "flex_lexer.l"
+#line 207 "flex_lexer.l"
 TOKEN(TEMPORARY)
 	YY_BREAK
 case 145:
 YY_RULE_SETUP
-#line 205 "flex_lexer.l"
+#line 208 "flex_lexer.l"
 TOKEN(TEXT)
 	YY_BREAK
 case 146:
 YY_RULE_SETUP
-#line 206 "flex_lexer.l"
+#line 209 "flex_lexer.l"
 TOKEN(THEN)
 	YY_BREAK
 case 147:
 YY_RULE_SETUP
-#line 207 "flex_lexer.l"
+#line 210 "flex_lexer.l"
 TOKEN(TIME)
 	YY_BREAK
 case 148:
 YY_RULE_SETUP
-#line 208 "flex_lexer.l"
+#line 211 "flex_lexer.l"
 TOKEN(TIMESTAMP)
 	YY_BREAK
 case 149:
 YY_RULE_SETUP
-#line 209 "flex_lexer.l"
+#line 212 "flex_lexer.l"
 TOKEN(TO)
 	YY_BREAK
 case 150:
 YY_RULE_SETUP
-#line 210 "flex_lexer.l"
+#line 213 "flex_lexer.l"
 TOKEN(TOP)
 	YY_BREAK
 case 151:
 YY_RULE_SETUP
-#line 211 "flex_lexer.l"
+#line 214 "flex_lexer.l"
 TOKEN(TRANSACTION)
 	YY_BREAK
 case 152:
 YY_RULE_SETUP
-#line 212 "flex_lexer.l"
+#line 215 "flex_lexer.l"
 TOKEN(TRUE)
 	YY_BREAK
 case 153:
 YY_RULE_SETUP
-#line 213 "flex_lexer.l"
+#line 216 "flex_lexer.l"
 TOKEN(TRUNCATE)
 	YY_BREAK
 case 154:
 YY_RULE_SETUP
-#line 214 "flex_lexer.l"
+#line 217 "flex_lexer.l"
 TOKEN(UNBOUNDED)
 	YY_BREAK
 case 155:
 YY_RULE_SETUP
-#line 215 "flex_lexer.l"
+#line 218 "flex_lexer.l"
 TOKEN(UNION)
 	YY_BREAK
 case 156:
 YY_RULE_SETUP
-#line 216 "flex_lexer.l"
+#line 219 "flex_lexer.l"
 TOKEN(UNIQUE)
 	YY_BREAK
 case 157:
 YY_RULE_SETUP
-#line 217 "flex_lexer.l"
+#line 220 "flex_lexer.l"
 TOKEN(UNLOAD)
 	YY_BREAK
 case 158:
 YY_RULE_SETUP
-#line 218 "flex_lexer.l"
+#line 221 "flex_lexer.l"
 TOKEN(UPDATE)
 	YY_BREAK
 case 159:
 YY_RULE_SETUP
-#line 219 "flex_lexer.l"
+#line 222 "flex_lexer.l"
 TOKEN(USING)
 	YY_BREAK
 case 160:
 YY_RULE_SETUP
-#line 220 "flex_lexer.l"
+#line 223 "flex_lexer.l"
 TOKEN(VALUES)
 	YY_BREAK
 case 161:
 YY_RULE_SETUP
-#line 221 "flex_lexer.l"
+#line 224 "flex_lexer.l"
 TOKEN(VARCHAR)
 	YY_BREAK
 case 162:
 YY_RULE_SETUP
-#line 222 "flex_lexer.l"
+#line 225 "flex_lexer.l"
 TOKEN(VIEW)
 	YY_BREAK
 case 163:
 YY_RULE_SETUP
-#line 223 "flex_lexer.l"
+#line 226 "flex_lexer.l"
 TOKEN(VIRTUAL)
 	YY_BREAK
 case 164:
 YY_RULE_SETUP
-#line 224 "flex_lexer.l"
+#line 227 "flex_lexer.l"
 TOKEN(WHEN)
 	YY_BREAK
 case 165:
 YY_RULE_SETUP
-#line 225 "flex_lexer.l"
+#line 228 "flex_lexer.l"
 TOKEN(WHERE)
 	YY_BREAK
 case 166:
 YY_RULE_SETUP
-#line 226 "flex_lexer.l"
+#line 229 "flex_lexer.l"
 TOKEN(WITH)
 	YY_BREAK
 case 167:
 YY_RULE_SETUP
-#line 227 "flex_lexer.l"
+#line 230 "flex_lexer.l"
 TOKEN(YEAR)
 	YY_BREAK
 case 168:
 YY_RULE_SETUP
-#line 228 "flex_lexer.l"
+#line 231 "flex_lexer.l"
 TOKEN(YEARS)
 	YY_BREAK
 case 169:
 /* rule 169 can match eol */
 YY_RULE_SETUP
-#line 230 "flex_lexer.l"
+#line 233 "flex_lexer.l"
 TOKEN(CURRENT_ROW)
 	YY_BREAK
 case 170:
 /* rule 170 can match eol */
 YY_RULE_SETUP
-#line 231 "flex_lexer.l"
+#line 234 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
 /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
 case 171:
 YY_RULE_SETUP
-#line 234 "flex_lexer.l"
+#line 237 "flex_lexer.l"
 TOKEN(EQUALS)
 	YY_BREAK
 case 172:
 YY_RULE_SETUP
-#line 235 "flex_lexer.l"
+#line 238 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 173:
 YY_RULE_SETUP
-#line 236 "flex_lexer.l"
+#line 239 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 174:
 YY_RULE_SETUP
-#line 237 "flex_lexer.l"
+#line 240 "flex_lexer.l"
 TOKEN(LESSEQ)
 	YY_BREAK
 case 175:
 YY_RULE_SETUP
-#line 238 "flex_lexer.l"
+#line 241 "flex_lexer.l"
 TOKEN(GREATEREQ)
 	YY_BREAK
 case 176:
 YY_RULE_SETUP
-#line 239 "flex_lexer.l"
+#line 242 "flex_lexer.l"
 TOKEN(CONCAT)
 	YY_BREAK
 case 177:
 YY_RULE_SETUP
-#line 241 "flex_lexer.l"
+#line 244 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
 case 178:
-#line 244 "flex_lexer.l"
+#line 247 "flex_lexer.l"
 case 179:
 YY_RULE_SETUP
-#line 244 "flex_lexer.l"
+#line 247 "flex_lexer.l"
 {
   yylval->fval = atof(yytext);
   return SQL_FLOATVAL;
@@ -2506,7 +2509,7 @@ YY_RULE_SETUP
    */
 case 180:
 YY_RULE_SETUP
-#line 254 "flex_lexer.l"
+#line 257 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
@@ -2514,7 +2517,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 181:
 YY_RULE_SETUP
-#line 259 "flex_lexer.l"
+#line 262 "flex_lexer.l"
 {
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 0);
@@ -2527,7 +2530,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 182:
 YY_RULE_SETUP
-#line 269 "flex_lexer.l"
+#line 272 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
@@ -2536,7 +2539,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 183:
 YY_RULE_SETUP
-#line 275 "flex_lexer.l"
+#line 278 "flex_lexer.l"
 {
   yylval->sval = strdup(yytext);
   return SQL_IDENTIFIER;
@@ -2544,40 +2547,40 @@ YY_RULE_SETUP
 	YY_BREAK
 case 184:
 YY_RULE_SETUP
-#line 280 "flex_lexer.l"
+#line 283 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
 case 185:
 YY_RULE_SETUP
-#line 281 "flex_lexer.l"
+#line 284 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
 case 186:
 /* rule 186 can match eol */
 YY_RULE_SETUP
-#line 282 "flex_lexer.l"
+#line 285 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
 case 187:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 286 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 284 "flex_lexer.l"
-{ fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return 0; }
+#line 287 "flex_lexer.l"
+{ BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return INVALID_TOKEN; }
 	YY_BREAK
 case 188:
 YY_RULE_SETUP
-#line 286 "flex_lexer.l"
-{ fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return 0; }
+#line 289 "flex_lexer.l"
+{ fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return INVALID_TOKEN; }
 	YY_BREAK
 case 189:
 YY_RULE_SETUP
-#line 288 "flex_lexer.l"
+#line 291 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2581 "flex_lexer.cpp"
+#line 2584 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(COMMENT):
 	yyterminate();
@@ -3734,7 +3737,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 288 "flex_lexer.l"
+#line 291 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 76e89d4..1ce7b61 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -730,7 +730,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 288 "flex_lexer.l"
+#line 291 "flex_lexer.l"
 
 
 #line 737 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 6f51dcf..878450b 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -18,6 +18,9 @@
 
 #define TOKEN(name) { return SQL_##name; }
 
+// Token that is not part of the grammar (bison reserves 257 for it), so that the text is rejected.
+#define INVALID_TOKEN 257
+
 static thread_local std::stringstream strbuf;
 
 %}
@@ -281,9 +284,9 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 <singlequotedstring>\'\'    { strbuf << '\''; }
 <singlequotedstring>[^']*   { strbuf << yytext; }
 <singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
-<singlequotedstring><<EOF>> { fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return 0; }
+<singlequotedstring><<EOF>> { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return INVALID_TOKEN; }
 
-. { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return 0; }
+. { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return INVALID_TOKEN; }
 
 %%
 /***************************
-- 
2.43.0


From cbd1c6aaf5e05ce318fa1438872398f9c75468a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 06/25] fix: do not stop reading at an embedded null character

Everything after a null character was ignored. Pass the length to the lexer;
null characters outside of comments are invalid. Parser regenerated with
bison 3.8.2.
---
 src/SQLParser.cpp           |    5 +-
 src/parser/bison_parser.cpp | 5356 ++++++++++++++++++-----------------
 src/parser/bison_parser.h   |  391 +--
 src/parser/bison_parser.y   |    2 +-
 src/parser/flex_lexer.cpp   | 1135 ++++----
 src/parser/flex_lexer.h     |    2 +-
 src/parser/flex_lexer.l     |    5 +-
 7 files changed, 3535 insertions(+), 3361 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index b3bf0df..c7f9c55 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -19,8 +19,7 @@ bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
     fprintf(stderr, "SQLParser: Error when initializing lexer!\n");
     return false;
   }
-  const char* text = sql.c_str();
-  state = hsql__scan_string(text, scanner);
+  state = hsql__scan_bytes(sql.data(), sql.length(), scanner);
 
   // Parse the tokens.
   // If parsing fails, the result will contain an error object.
@@ -49,7 +48,7 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   }
 
   YY_BUFFER_STATE state;
-  state = hsql__scan_string(sql.c_str(), scanner);
+  state = hsql__scan_bytes(sql.data(), sql.length(), scanner);
 
   YYSTYPE yylval;
   YYLTYPE yylloc;
diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 8e44501..f35c246 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -1,8 +1,9 @@
-/* A Bison parser, made by GNU Bison 3.0.4.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison implementation for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015 Free Software Foundation, Inc.
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
+   Inc.
 
    This program is free software: you can redistribute it and/or modify
    it under the terms of the GNU General Public License as published by
@@ -15,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -33,6 +34,10 @@
 /* C LALR(1) parser skeleton written by Richard Stallman, by
    simplifying the original so-called "semantic" parser.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 /* All symbols defined below should begin with yy or YY, to avoid
    infringing on user name space.  This should be done even for local
    variables, as they might otherwise be expanded by user macros.
@@ -40,11 +45,11 @@
    define necessary library symbols; they are noted "INFRINGES ON
    USER NAME SPACE" below.  */
 
-/* Identify Bison output.  */
-#define YYBISON 1
+/* Identify Bison output, and Bison version.  */
+#define YYBISON 30802
 
-/* Bison version.  */
-#define YYBISON_VERSION "3.0.4"
+/* Bison version string.  */
+#define YYBISON_VERSION "3.8.2"
 
 /* Skeleton name.  */
 #define YYSKELETON_NAME "yacc.c"
@@ -68,9 +73,8 @@
 #define yydebug         hsql_debug
 #define yynerrs         hsql_nerrs
 
-
-/* Copy the first part of user declarations.  */
-#line 2 "bison_parser.y" /* yacc.c:339  */
+/* First part of user prologue.  */
+#line 2 "bison_parser.y"
 
 
 /**
@@ -101,394 +105,460 @@
   }
   // clang-format off
 
-#line 105 "bison_parser.cpp" /* yacc.c:339  */
+#line 109 "bison_parser.cpp"
 
-# ifndef YY_NULLPTR
-#  if defined __cplusplus && 201103L <= __cplusplus
-#   define YY_NULLPTR nullptr
+# ifndef YY_CAST
+#  ifdef __cplusplus
+#   define YY_CAST(Type, Val) static_cast<Type> (Val)
+#   define YY_REINTERPRET_CAST(Type, Val) reinterpret_cast<Type> (Val)
 #  else
-#   define YY_NULLPTR 0
+#   define YY_CAST(Type, Val) ((Type) (Val))
+#   define YY_REINTERPRET_CAST(Type, Val) ((Type) (Val))
 #  endif
 # endif
-
-/* Enabling verbose error messages.  */
-#ifdef YYERROR_VERBOSE
-# undef YYERROR_VERBOSE
-# define YYERROR_VERBOSE 1
-#else
-# define YYERROR_VERBOSE 1
-#endif
-
-/* In a future release of Bison, this section will be replaced
-   by #include "bison_parser.h".  */
-#ifndef YY_HSQL_BISON_PARSER_H_INCLUDED
-# define YY_HSQL_BISON_PARSER_H_INCLUDED
-/* Debug traces.  */
-#ifndef HSQL_DEBUG
-# if defined YYDEBUG
-#if YYDEBUG
-#   define HSQL_DEBUG 1
+# ifndef YY_NULLPTR
+#  if defined __cplusplus
+#   if 201103L <= __cplusplus
+#    define YY_NULLPTR nullptr
+#   else
+#    define YY_NULLPTR 0
+#   endif
 #  else
-#   define HSQL_DEBUG 0
+#   define YY_NULLPTR ((void*)0)
 #  endif
-# else /* ! defined YYDEBUG */
-#  define HSQL_DEBUG 0
-# endif /* ! defined YYDEBUG */
-#endif  /* ! defined HSQL_DEBUG */
-#if HSQL_DEBUG
-extern int hsql_debug;
-#endif
-/* "%code requires" blocks.  */
-#line 39 "bison_parser.y" /* yacc.c:355  */
-
-// %code requires block
-
-#include "../SQLParserResult.h"
-#include "../sql/statements.h"
-#include "parser_typedef.h"
-
-// Auto update column and line number
-#define YY_USER_ACTION                        \
-  yylloc->first_line = yylloc->last_line;     \
-  yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
-    yylloc->total_column++;                   \
-    yylloc->string_length++;                  \
-    if (yytext[i] == '\n') {                  \
-      yylloc->last_line++;                    \
-      yylloc->last_column = 0;                \
-    } else {                                  \
-      yylloc->last_column++;                  \
-    }                                         \
-  }
-
-#line 166 "bison_parser.cpp" /* yacc.c:355  */
-
-/* Token type.  */
-#ifndef HSQL_TOKENTYPE
-# define HSQL_TOKENTYPE
-  enum hsql_tokentype
-  {
-    SQL_IDENTIFIER = 258,
-    SQL_STRING = 259,
-    SQL_FLOATVAL = 260,
-    SQL_INTVAL = 261,
-    SQL_DEALLOCATE = 262,
-    SQL_PARAMETERS = 263,
-    SQL_INTERSECT = 264,
-    SQL_TEMPORARY = 265,
-    SQL_TIMESTAMP = 266,
-    SQL_DISTINCT = 267,
-    SQL_NVARCHAR = 268,
-    SQL_RESTRICT = 269,
-    SQL_TRUNCATE = 270,
-    SQL_ANALYZE = 271,
-    SQL_BETWEEN = 272,
-    SQL_CASCADE = 273,
-    SQL_COLUMNS = 274,
-    SQL_CONTROL = 275,
-    SQL_DEFAULT = 276,
-    SQL_EXECUTE = 277,
-    SQL_EXPLAIN = 278,
-    SQL_ENCODING = 279,
-    SQL_INTEGER = 280,
-    SQL_NATURAL = 281,
-    SQL_PREPARE = 282,
-    SQL_SCHEMAS = 283,
-    SQL_CHARACTER_VARYING = 284,
-    SQL_REAL = 285,
-    SQL_DECIMAL = 286,
-    SQL_SMALLINT = 287,
-    SQL_BIGINT = 288,
-    SQL_SPATIAL = 289,
-    SQL_VARCHAR = 290,
-    SQL_VIRTUAL = 291,
-    SQL_DESCRIBE = 292,
-    SQL_BEFORE = 293,
-    SQL_COLUMN = 294,
-    SQL_CREATE = 295,
-    SQL_DELETE = 296,
-    SQL_DIRECT = 297,
-    SQL_DOUBLE = 298,
-    SQL_ESCAPE = 299,
-    SQL_EXCEPT = 300,
-    SQL_EXISTS = 301,
-    SQL_EXTRACT = 302,
-    SQL_CAST = 303,
-    SQL_FORMAT = 304,
-    SQL_GLOBAL = 305,
-    SQL_HAVING = 306,
-    SQL_IMPORT = 307,
-    SQL_INSERT = 308,
-    SQL_ISNULL = 309,
-    SQL_OFFSET = 310,
-    SQL_RENAME = 311,
-    SQL_SCHEMA = 312,
-    SQL_SELECT = 313,
-    SQL_SORTED = 314,
-    SQL_TABLES = 315,
-    SQL_UNLOAD = 316,
-    SQL_UPDATE = 317,
-    SQL_VALUES = 318,
-    SQL_AFTER = 319,
-    SQL_ALTER = 320,
-    SQL_CROSS = 321,
-    SQL_DELTA = 322,
-    SQL_FLOAT = 323,
-    SQL_GROUP = 324,
-    SQL_INDEX = 325,
-    SQL_INNER = 326,
-    SQL_LIMIT = 327,
-    SQL_LOCAL = 328,
-    SQL_MERGE = 329,
-    SQL_MINUS = 330,
-    SQL_ORDER = 331,
-    SQL_OVER = 332,
-    SQL_OUTER = 333,
-    SQL_RIGHT = 334,
-    SQL_TABLE = 335,
-    SQL_UNION = 336,
-    SQL_USING = 337,
-    SQL_WHERE = 338,
-    SQL_CALL = 339,
-    SQL_CASE = 340,
-    SQL_CHAR = 341,
-    SQL_COPY = 342,
-    SQL_DATE = 343,
-    SQL_DATETIME = 344,
-    SQL_DESC = 345,
-    SQL_DROP = 346,
-    SQL_ELSE = 347,
-    SQL_FILE = 348,
-    SQL_FROM = 349,
-    SQL_FULL = 350,
-    SQL_HASH = 351,
-    SQL_HINT = 352,
-    SQL_INTO = 353,
-    SQL_JOIN = 354,
-    SQL_LEFT = 355,
-    SQL_LIKE = 356,
-    SQL_LOAD = 357,
-    SQL_LONG = 358,
-    SQL_NULL = 359,
-    SQL_PARTITION = 360,
-    SQL_PLAN = 361,
-    SQL_SHOW = 362,
-    SQL_TEXT = 363,
-    SQL_THEN = 364,
-    SQL_TIME = 365,
-    SQL_VIEW = 366,
-    SQL_WHEN = 367,
-    SQL_WITH = 368,
-    SQL_ADD = 369,
-    SQL_ALL = 370,
-    SQL_AND = 371,
-    SQL_ASC = 372,
-    SQL_END = 373,
-    SQL_FOR = 374,
-    SQL_INT = 375,
-    SQL_NOT = 376,
-    SQL_OFF = 377,
-    SQL_SET = 378,
-    SQL_TOP = 379,
-    SQL_AS = 380,
-    SQL_BY = 381,
-    SQL_IF = 382,
-    SQL_IN = 383,
-    SQL_IS = 384,
-    SQL_OF = 385,
-    SQL_ON = 386,
-    SQL_OR = 387,
-    SQL_TO = 388,
-    SQL_NO = 389,
-    SQL_ARRAY = 390,
-    SQL_CONCAT = 391,
-    SQL_ILIKE = 392,
-    SQL_SECOND = 393,
-    SQL_MINUTE = 394,
-    SQL_HOUR = 395,
-    SQL_DAY = 396,
-    SQL_MONTH = 397,
-    SQL_YEAR = 398,
-    SQL_SECONDS = 399,
-    SQL_MINUTES = 400,
-    SQL_HOURS = 401,
-    SQL_DAYS = 402,
-    SQL_MONTHS = 403,
-    SQL_YEARS = 404,
-    SQL_INTERVAL = 405,
-    SQL_TRUE = 406,
-    SQL_FALSE = 407,
-    SQL_BOOLEAN = 408,
-    SQL_TRANSACTION = 409,
-    SQL_BEGIN = 410,
-    SQL_COMMIT = 411,
-    SQL_ROLLBACK = 412,
-    SQL_NOWAIT = 413,
-    SQL_SKIP = 414,
-    SQL_LOCKED = 415,
-    SQL_SHARE = 416,
-    SQL_RANGE = 417,
-    SQL_ROWS = 418,
-    SQL_GROUPS = 419,
-    SQL_UNBOUNDED = 420,
-    SQL_FOLLOWING = 421,
-    SQL_PRECEDING = 422,
-    SQL_CURRENT_ROW = 423,
-    SQL_UNIQUE = 424,
-    SQL_PRIMARY = 425,
-    SQL_FOREIGN = 426,
-    SQL_KEY = 427,
-    SQL_REFERENCES = 428,
-    SQL_EQUALS = 429,
-    SQL_NOTEQUALS = 430,
-    SQL_LESS = 431,
-    SQL_GREATER = 432,
-    SQL_LESSEQ = 433,
-    SQL_GREATEREQ = 434,
-    SQL_NOTNULL = 435,
-    SQL_UMINUS = 436
-  };
-#endif
-
-/* Value type.  */
-#if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
+# endif
 
-union HSQL_STYPE
+#include "bison_parser.h"
+/* Symbol kind.  */
+enum yysymbol_kind_t
 {
-#line 102 "bison_parser.y" /* yacc.c:355  */
-
-  // clang-format on
-  bool bval;
-  char* sval;
-  double fval;
-  int64_t ival;
-  uintmax_t uval;
-
-  // statements
-  hsql::AlterStatement* alter_stmt;
-  hsql::CreateStatement* create_stmt;
-  hsql::DeleteStatement* delete_stmt;
-  hsql::DropStatement* drop_stmt;
-  hsql::ExecuteStatement* exec_stmt;
-  hsql::ExportStatement* export_stmt;
-  hsql::ImportStatement* import_stmt;
-  hsql::InsertStatement* insert_stmt;
-  hsql::PrepareStatement* prep_stmt;
-  hsql::SelectStatement* select_stmt;
-  hsql::ShowStatement* show_stmt;
-  hsql::SQLStatement* statement;
-  hsql::TransactionStatement* transaction_stmt;
-  hsql::UpdateStatement* update_stmt;
-
-  hsql::Alias* alias_t;
-  hsql::AlterAction* alter_action_t;
-  hsql::ColumnConstraints* column_constraints_t;
-  hsql::ColumnDefinition* column_t;
-  hsql::ColumnType column_type_t;
-  hsql::ConstraintType column_constraint_t;
-  hsql::DatetimeField datetime_field;
-  hsql::DropColumnAction* drop_action_t;
-  hsql::Expr* expr;
-  hsql::FrameBound* frame_bound;
-  hsql::FrameDescription* frame_description;
-  hsql::FrameType frame_type;
-  hsql::GroupByDescription* group_t;
-  hsql::ImportType import_type_t;
-  hsql::JoinType join_type;
-  hsql::LimitDescription* limit;
-  hsql::LockingClause* locking_t;
-  hsql::OrderDescription* order;
-  hsql::OrderType order_type;
-  hsql::NullOrdering null_ordering_t;
-  hsql::ReferencesSpecification* references_spec_t;
-  hsql::SetOperation* set_operator_t;
-  hsql::TableConstraint* table_constraint_t;
-  hsql::TableElement* table_element_t;
-  hsql::TableName table_name;
-  hsql::TableRef* table;
-  hsql::UpdateClause* update_t;
-  hsql::WindowDescription* window_description;
-  hsql::WithDescription* with_description_t;
-
-  std::vector<char*>* str_vec;
-  std::vector<hsql::Expr*>* expr_vec;
-  std::vector<hsql::OrderDescription*>* order_vec;
-  std::vector<hsql::SQLStatement*>* stmt_vec;
-  std::vector<hsql::TableElement*>* table_element_vec;
-  std::vector<hsql::TableRef*>* table_vec;
-  std::vector<hsql::UpdateClause*>* update_vec;
-  std::vector<hsql::WithDescription*>* with_description_vec;
-  std::vector<hsql::LockingClause*>* locking_clause_vec;
-
-  std::pair<int64_t, int64_t>* ival_pair;
-
-  hsql::RowLockMode lock_mode_t;
-  hsql::RowLockWaitPolicy lock_wait_policy_t;
-
-  hsql::ImportExportOptions* import_export_option_t;
-  std::pair<hsql::CsvOptionType, char*>* csv_option_t;
-
-  // clang-format off
-
-#line 435 "bison_parser.cpp" /* yacc.c:355  */
+  YYSYMBOL_YYEMPTY = -2,
+  YYSYMBOL_YYEOF = 0,                      /* "end of file"  */
+  YYSYMBOL_YYerror = 1,                    /* error  */
+  YYSYMBOL_YYUNDEF = 2,                    /* "invalid token"  */
+  YYSYMBOL_IDENTIFIER = 3,                 /* IDENTIFIER  */
+  YYSYMBOL_STRING = 4,                     /* STRING  */
+  YYSYMBOL_FLOATVAL = 5,                   /* FLOATVAL  */
+  YYSYMBOL_INTVAL = 6,                     /* INTVAL  */
+  YYSYMBOL_DEALLOCATE = 7,                 /* DEALLOCATE  */
+  YYSYMBOL_PARAMETERS = 8,                 /* PARAMETERS  */
+  YYSYMBOL_INTERSECT = 9,                  /* INTERSECT  */
+  YYSYMBOL_TEMPORARY = 10,                 /* TEMPORARY  */
+  YYSYMBOL_TIMESTAMP = 11,                 /* TIMESTAMP  */
+  YYSYMBOL_DISTINCT = 12,                  /* DISTINCT  */
+  YYSYMBOL_NVARCHAR = 13,                  /* NVARCHAR  */
+  YYSYMBOL_RESTRICT = 14,                  /* RESTRICT  */
+  YYSYMBOL_TRUNCATE = 15,                  /* TRUNCATE  */
+  YYSYMBOL_ANALYZE = 16,                   /* ANALYZE  */
+  YYSYMBOL_BETWEEN = 17,                   /* BETWEEN  */
+  YYSYMBOL_CASCADE = 18,                   /* CASCADE  */
+  YYSYMBOL_COLUMNS = 19,                   /* COLUMNS  */
+  YYSYMBOL_CONTROL = 20,                   /* CONTROL  */
+  YYSYMBOL_DEFAULT = 21,                   /* DEFAULT  */
+  YYSYMBOL_EXECUTE = 22,                   /* EXECUTE  */
+  YYSYMBOL_EXPLAIN = 23,                   /* EXPLAIN  */
+  YYSYMBOL_ENCODING = 24,                  /* ENCODING  */
+  YYSYMBOL_INTEGER = 25,                   /* INTEGER  */
+  YYSYMBOL_NATURAL = 26,                   /* NATURAL  */
+  YYSYMBOL_PREPARE = 27,                   /* PREPARE  */
+  YYSYMBOL_SCHEMAS = 28,                   /* SCHEMAS  */
+  YYSYMBOL_CHARACTER_VARYING = 29,         /* CHARACTER_VARYING  */
+  YYSYMBOL_REAL = 30,                      /* REAL  */
+  YYSYMBOL_DECIMAL = 31,                   /* DECIMAL  */
+  YYSYMBOL_SMALLINT = 32,                  /* SMALLINT  */
+  YYSYMBOL_BIGINT = 33,                    /* BIGINT  */
+  YYSYMBOL_SPATIAL = 34,                   /* SPATIAL  */
+  YYSYMBOL_VARCHAR = 35,                   /* VARCHAR  */
+  YYSYMBOL_VIRTUAL = 36,                   /* VIRTUAL  */
+  YYSYMBOL_DESCRIBE = 37,                  /* DESCRIBE  */
+  YYSYMBOL_BEFORE = 38,                    /* BEFORE  */
+  YYSYMBOL_COLUMN = 39,                    /* COLUMN  */
+  YYSYMBOL_CREATE = 40,                    /* CREATE  */
+  YYSYMBOL_DELETE = 41,                    /* DELETE  */
+  YYSYMBOL_DIRECT = 42,                    /* DIRECT  */
+  YYSYMBOL_DOUBLE = 43,                    /* DOUBLE  */
+  YYSYMBOL_ESCAPE = 44,                    /* ESCAPE  */
+  YYSYMBOL_EXCEPT = 45,                    /* EXCEPT  */
+  YYSYMBOL_EXISTS = 46,                    /* EXISTS  */
+  YYSYMBOL_EXTRACT = 47,                   /* EXTRACT  */
+  YYSYMBOL_CAST = 48,                      /* CAST  */
+  YYSYMBOL_FORMAT = 49,                    /* FORMAT  */
+  YYSYMBOL_GLOBAL = 50,                    /* GLOBAL  */
+  YYSYMBOL_HAVING = 51,                    /* HAVING  */
+  YYSYMBOL_IMPORT = 52,                    /* IMPORT  */
+  YYSYMBOL_INSERT = 53,                    /* INSERT  */
+  YYSYMBOL_ISNULL = 54,                    /* ISNULL  */
+  YYSYMBOL_OFFSET = 55,                    /* OFFSET  */
+  YYSYMBOL_RENAME = 56,                    /* RENAME  */
+  YYSYMBOL_SCHEMA = 57,                    /* SCHEMA  */
+  YYSYMBOL_SELECT = 58,                    /* SELECT  */
+  YYSYMBOL_SORTED = 59,                    /* SORTED  */
+  YYSYMBOL_TABLES = 60,                    /* TABLES  */
+  YYSYMBOL_UNLOAD = 61,                    /* UNLOAD  */
+  YYSYMBOL_UPDATE = 62,                    /* UPDATE  */
+  YYSYMBOL_VALUES = 63,                    /* VALUES  */
+  YYSYMBOL_AFTER = 64,                     /* AFTER  */
+  YYSYMBOL_ALTER = 65,                     /* ALTER  */
+  YYSYMBOL_CROSS = 66,                     /* CROSS  */
+  YYSYMBOL_DELTA = 67,                     /* DELTA  */
+  YYSYMBOL_FLOAT = 68,                     /* FLOAT  */
+  YYSYMBOL_GROUP = 69,                     /* GROUP  */
+  YYSYMBOL_INDEX = 70,                     /* INDEX  */
+  YYSYMBOL_INNER = 71,                     /* INNER  */
+  YYSYMBOL_LIMIT = 72,                     /* LIMIT  */
+  YYSYMBOL_LOCAL = 73,                     /* LOCAL  */
+  YYSYMBOL_MERGE = 74,                     /* MERGE  */
+  YYSYMBOL_MINUS = 75,                     /* MINUS  */
+  YYSYMBOL_ORDER = 76,                     /* ORDER  */
+  YYSYMBOL_OVER = 77,                      /* OVER  */
+  YYSYMBOL_OUTER = 78,                     /* OUTER  */
+  YYSYMBOL_RIGHT = 79,                     /* RIGHT  */
+  YYSYMBOL_TABLE = 80,                     /* TABLE  */
+  YYSYMBOL_UNION = 81,                     /* UNION  */
+  YYSYMBOL_USING = 82,                     /* USING  */
+  YYSYMBOL_WHERE = 83,                     /* WHERE  */
+  YYSYMBOL_CALL = 84,                      /* CALL  */
+  YYSYMBOL_CASE = 85,                      /* CASE  */
+  YYSYMBOL_CHAR = 86,                      /* CHAR  */
+  YYSYMBOL_COPY = 87,                      /* COPY  */
+  YYSYMBOL_DATE = 88,                      /* DATE  */
+  YYSYMBOL_DATETIME = 89,                  /* DATETIME  */
+  YYSYMBOL_DESC = 90,                      /* DESC  */
+  YYSYMBOL_DROP = 91,                      /* DROP  */
+  YYSYMBOL_ELSE = 92,                      /* ELSE  */
+  YYSYMBOL_FILE = 93,                      /* FILE  */
+  YYSYMBOL_FROM = 94,                      /* FROM  */
+  YYSYMBOL_FULL = 95,                      /* FULL  */
+  YYSYMBOL_HASH = 96,                      /* HASH  */
+  YYSYMBOL_HINT = 97,                      /* HINT  */
+  YYSYMBOL_INTO = 98,                      /* INTO  */
+  YYSYMBOL_JOIN = 99,                      /* JOIN  */
+  YYSYMBOL_LEFT = 100,                     /* LEFT  */
+  YYSYMBOL_LIKE = 101,                     /* LIKE  */
+  YYSYMBOL_LOAD = 102,                     /* LOAD  */
+  YYSYMBOL_LONG = 103,                     /* LONG  */
+  YYSYMBOL_NULL = 104,                     /* NULL  */
+  YYSYMBOL_PARTITION = 105,                /* PARTITION  */
+  YYSYMBOL_PLAN = 106,                     /* PLAN  */
+  YYSYMBOL_SHOW = 107,                     /* SHOW  */
+  YYSYMBOL_TEXT = 108,                     /* TEXT  */
+  YYSYMBOL_THEN = 109,                     /* THEN  */
+  YYSYMBOL_TIME = 110,                     /* TIME  */
+  YYSYMBOL_VIEW = 111,                     /* VIEW  */
+  YYSYMBOL_WHEN = 112,                     /* WHEN  */
+  YYSYMBOL_WITH = 113,                     /* WITH  */
+  YYSYMBOL_ADD = 114,                      /* ADD  */
+  YYSYMBOL_ALL = 115,                      /* ALL  */
+  YYSYMBOL_AND = 116,                      /* AND  */
+  YYSYMBOL_ASC = 117,                      /* ASC  */
+  YYSYMBOL_END = 118,                      /* END  */
+  YYSYMBOL_FOR = 119,                      /* FOR  */
+  YYSYMBOL_INT = 120,                      /* INT  */
+  YYSYMBOL_NOT = 121,                      /* NOT  */
+  YYSYMBOL_OFF = 122,                      /* OFF  */
+  YYSYMBOL_SET = 123,                      /* SET  */
+  YYSYMBOL_TOP = 124,                      /* TOP  */
+  YYSYMBOL_AS = 125,                       /* AS  */
+  YYSYMBOL_BY = 126,                       /* BY  */
+  YYSYMBOL_IF = 127,                       /* IF  */
+  YYSYMBOL_IN = 128,                       /* IN  */
+  YYSYMBOL_IS = 129,                       /* IS  */
+  YYSYMBOL_OF = 130,                       /* OF  */
+  YYSYMBOL_ON = 131,                       /* ON  */
+  YYSYMBOL_OR = 132,                       /* OR  */
+  YYSYMBOL_TO = 133,                       /* TO  */
+  YYSYMBOL_NO = 134,                       /* NO  */
+  YYSYMBOL_ARRAY = 135,                    /* ARRAY  */
+  YYSYMBOL_CONCAT = 136,                   /* CONCAT  */
+  YYSYMBOL_ILIKE = 137,                    /* ILIKE  */
+  YYSYMBOL_SECOND = 138,                   /* SECOND  */
+  YYSYMBOL_MINUTE = 139,                   /* MINUTE  */
+  YYSYMBOL_HOUR = 140,                     /* HOUR  */
+  YYSYMBOL_DAY = 141,                      /* DAY  */
+  YYSYMBOL_MONTH = 142,                    /* MONTH  */
+  YYSYMBOL_YEAR = 143,                     /* YEAR  */
+  YYSYMBOL_SECONDS = 144,                  /* SECONDS  */
+  YYSYMBOL_MINUTES = 145,                  /* MINUTES  */
+  YYSYMBOL_HOURS = 146,                    /* HOURS  */
+  YYSYMBOL_DAYS = 147,                     /* DAYS  */
+  YYSYMBOL_MONTHS = 148,                   /* MONTHS  */
+  YYSYMBOL_YEARS = 149,                    /* YEARS  */
+  YYSYMBOL_INTERVAL = 150,                 /* INTERVAL  */
+  YYSYMBOL_TRUE = 151,                     /* TRUE  */
+  YYSYMBOL_FALSE = 152,                    /* FALSE  */
+  YYSYMBOL_BOOLEAN = 153,                  /* BOOLEAN  */
+  YYSYMBOL_TRANSACTION = 154,              /* TRANSACTION  */
+  YYSYMBOL_BEGIN = 155,                    /* BEGIN  */
+  YYSYMBOL_COMMIT = 156,                   /* COMMIT  */
+  YYSYMBOL_ROLLBACK = 157,                 /* ROLLBACK  */
+  YYSYMBOL_NOWAIT = 158,                   /* NOWAIT  */
+  YYSYMBOL_SKIP = 159,                     /* SKIP  */
+  YYSYMBOL_LOCKED = 160,                   /* LOCKED  */
+  YYSYMBOL_SHARE = 161,                    /* SHARE  */
+  YYSYMBOL_RANGE = 162,                    /* RANGE  */
+  YYSYMBOL_ROWS = 163,                     /* ROWS  */
+  YYSYMBOL_GROUPS = 164,                   /* GROUPS  */
+  YYSYMBOL_UNBOUNDED = 165,                /* UNBOUNDED  */
+  YYSYMBOL_FOLLOWING = 166,                /* FOLLOWING  */
+  YYSYMBOL_PRECEDING = 167,                /* PRECEDING  */
+  YYSYMBOL_CURRENT_ROW = 168,              /* CURRENT_ROW  */
+  YYSYMBOL_UNIQUE = 169,                   /* UNIQUE  */
+  YYSYMBOL_PRIMARY = 170,                  /* PRIMARY  */
+  YYSYMBOL_FOREIGN = 171,                  /* FOREIGN  */
+  YYSYMBOL_KEY = 172,                      /* KEY  */
+  YYSYMBOL_REFERENCES = 173,               /* REFERENCES  */
+  YYSYMBOL_174_ = 174,                     /* '='  */
+  YYSYMBOL_EQUALS = 175,                   /* EQUALS  */
+  YYSYMBOL_NOTEQUALS = 176,                /* NOTEQUALS  */
+  YYSYMBOL_177_ = 177,                     /* '<'  */
+  YYSYMBOL_178_ = 178,                     /* '>'  */
+  YYSYMBOL_LESS = 179,                     /* LESS  */
+  YYSYMBOL_GREATER = 180,                  /* GREATER  */
+  YYSYMBOL_LESSEQ = 181,                   /* LESSEQ  */
+  YYSYMBOL_GREATEREQ = 182,                /* GREATEREQ  */
+  YYSYMBOL_NOTNULL = 183,                  /* NOTNULL  */
+  YYSYMBOL_184_ = 184,                     /* '+'  */
+  YYSYMBOL_185_ = 185,                     /* '-'  */
+  YYSYMBOL_186_ = 186,                     /* '*'  */
+  YYSYMBOL_187_ = 187,                     /* '/'  */
+  YYSYMBOL_188_ = 188,                     /* '%'  */
+  YYSYMBOL_189_ = 189,                     /* '^'  */
+  YYSYMBOL_UMINUS = 190,                   /* UMINUS  */
+  YYSYMBOL_191_ = 191,                     /* '['  */
+  YYSYMBOL_192_ = 192,                     /* ']'  */
+  YYSYMBOL_193_ = 193,                     /* '('  */
+  YYSYMBOL_194_ = 194,                     /* ')'  */
+  YYSYMBOL_195_ = 195,                     /* '.'  */
+  YYSYMBOL_196_ = 196,                     /* ';'  */
+  YYSYMBOL_197_ = 197,                     /* ','  */
+  YYSYMBOL_198_ = 198,                     /* '?'  */
+  YYSYMBOL_YYACCEPT = 199,                 /* $accept  */
+  YYSYMBOL_input = 200,                    /* input  */
+  YYSYMBOL_statement_list = 201,           /* statement_list  */
+  YYSYMBOL_statement = 202,                /* statement  */
+  YYSYMBOL_preparable_statement = 203,     /* preparable_statement  */
+  YYSYMBOL_opt_hints = 204,                /* opt_hints  */
+  YYSYMBOL_hint_list = 205,                /* hint_list  */
+  YYSYMBOL_hint = 206,                     /* hint  */
+  YYSYMBOL_transaction_statement = 207,    /* transaction_statement  */
+  YYSYMBOL_opt_transaction_keyword = 208,  /* opt_transaction_keyword  */
+  YYSYMBOL_prepare_statement = 209,        /* prepare_statement  */
+  YYSYMBOL_prepare_target_query = 210,     /* prepare_target_query  */
+  YYSYMBOL_execute_statement = 211,        /* execute_statement  */
+  YYSYMBOL_import_statement = 212,         /* import_statement  */
+  YYSYMBOL_file_type = 213,                /* file_type  */
+  YYSYMBOL_file_path = 214,                /* file_path  */
+  YYSYMBOL_opt_import_export_options = 215, /* opt_import_export_options  */
+  YYSYMBOL_import_export_options = 216,    /* import_export_options  */
+  YYSYMBOL_csv_option = 217,               /* csv_option  */
+  YYSYMBOL_export_statement = 218,         /* export_statement  */
+  YYSYMBOL_show_statement = 219,           /* show_statement  */
+  YYSYMBOL_create_statement = 220,         /* create_statement  */
+  YYSYMBOL_opt_not_exists = 221,           /* opt_not_exists  */
+  YYSYMBOL_table_elem_commalist = 222,     /* table_elem_commalist  */
+  YYSYMBOL_table_elem = 223,               /* table_elem  */
+  YYSYMBOL_column_def = 224,               /* column_def  */
+  YYSYMBOL_column_type = 225,              /* column_type  */
+  YYSYMBOL_opt_time_precision = 226,       /* opt_time_precision  */
+  YYSYMBOL_opt_decimal_specification = 227, /* opt_decimal_specification  */
+  YYSYMBOL_opt_column_constraints = 228,   /* opt_column_constraints  */
+  YYSYMBOL_column_constraints = 229,       /* column_constraints  */
+  YYSYMBOL_column_constraint = 230,        /* column_constraint  */
+  YYSYMBOL_table_constraint = 231,         /* table_constraint  */
+  YYSYMBOL_references_spec = 232,          /* references_spec  */
+  YYSYMBOL_drop_statement = 233,           /* drop_statement  */
+  YYSYMBOL_opt_exists = 234,               /* opt_exists  */
+  YYSYMBOL_alter_statement = 235,          /* alter_statement  */
+  YYSYMBOL_alter_action = 236,             /* alter_action  */
+  YYSYMBOL_drop_action = 237,              /* drop_action  */
+  YYSYMBOL_delete_statement = 238,         /* delete_statement  */
+  YYSYMBOL_truncate_statement = 239,       /* truncate_statement  */
+  YYSYMBOL_insert_statement = 240,         /* insert_statement  */
+  YYSYMBOL_opt_column_list = 241,          /* opt_column_list  */
+  YYSYMBOL_update_statement = 242,         /* update_statement  */
+  YYSYMBOL_update_clause_commalist = 243,  /* update_clause_commalist  */
+  YYSYMBOL_update_clause = 244,            /* update_clause  */
+  YYSYMBOL_select_statement = 245,         /* select_statement  */
+  YYSYMBOL_select_within_set_operation = 246, /* select_within_set_operation  */
+  YYSYMBOL_select_within_set_operation_no_parentheses = 247, /* select_within_set_operation_no_parentheses  */
+  YYSYMBOL_select_with_paren = 248,        /* select_with_paren  */
+  YYSYMBOL_select_no_paren = 249,          /* select_no_paren  */
+  YYSYMBOL_set_operator = 250,             /* set_operator  */
+  YYSYMBOL_set_type = 251,                 /* set_type  */
+  YYSYMBOL_opt_all = 252,                  /* opt_all  */
+  YYSYMBOL_select_clause = 253,            /* select_clause  */
+  YYSYMBOL_opt_distinct = 254,             /* opt_distinct  */
+  YYSYMBOL_select_list = 255,              /* select_list  */
+  YYSYMBOL_opt_from_clause = 256,          /* opt_from_clause  */
+  YYSYMBOL_from_clause = 257,              /* from_clause  */
+  YYSYMBOL_opt_where = 258,                /* opt_where  */
+  YYSYMBOL_opt_group = 259,                /* opt_group  */
+  YYSYMBOL_opt_having = 260,               /* opt_having  */
+  YYSYMBOL_opt_order = 261,                /* opt_order  */
+  YYSYMBOL_order_list = 262,               /* order_list  */
+  YYSYMBOL_order_desc = 263,               /* order_desc  */
+  YYSYMBOL_opt_order_type = 264,           /* opt_order_type  */
+  YYSYMBOL_opt_null_ordering = 265,        /* opt_null_ordering  */
+  YYSYMBOL_opt_top = 266,                  /* opt_top  */
+  YYSYMBOL_opt_limit = 267,                /* opt_limit  */
+  YYSYMBOL_expr_list = 268,                /* expr_list  */
+  YYSYMBOL_opt_extended_literal_list = 269, /* opt_extended_literal_list  */
+  YYSYMBOL_extended_literal_list = 270,    /* extended_literal_list  */
+  YYSYMBOL_casted_extended_literal = 271,  /* casted_extended_literal  */
+  YYSYMBOL_extended_literal = 272,         /* extended_literal  */
+  YYSYMBOL_expr_alias = 273,               /* expr_alias  */
+  YYSYMBOL_expr = 274,                     /* expr  */
+  YYSYMBOL_operand = 275,                  /* operand  */
+  YYSYMBOL_scalar_expr = 276,              /* scalar_expr  */
+  YYSYMBOL_unary_expr = 277,               /* unary_expr  */
+  YYSYMBOL_binary_expr = 278,              /* binary_expr  */
+  YYSYMBOL_logic_expr = 279,               /* logic_expr  */
+  YYSYMBOL_in_expr = 280,                  /* in_expr  */
+  YYSYMBOL_case_expr = 281,                /* case_expr  */
+  YYSYMBOL_case_list = 282,                /* case_list  */
+  YYSYMBOL_exists_expr = 283,              /* exists_expr  */
+  YYSYMBOL_comp_expr = 284,                /* comp_expr  */
+  YYSYMBOL_function_expr = 285,            /* function_expr  */
+  YYSYMBOL_opt_window = 286,               /* opt_window  */
+  YYSYMBOL_opt_partition = 287,            /* opt_partition  */
+  YYSYMBOL_opt_frame_clause = 288,         /* opt_frame_clause  */
+  YYSYMBOL_frame_type = 289,               /* frame_type  */
+  YYSYMBOL_frame_bound = 290,              /* frame_bound  */
+  YYSYMBOL_extract_expr = 291,             /* extract_expr  */
+  YYSYMBOL_cast_expr = 292,                /* cast_expr  */
+  YYSYMBOL_datetime_field = 293,           /* datetime_field  */
+  YYSYMBOL_datetime_field_plural = 294,    /* datetime_field_plural  */
+  YYSYMBOL_duration_field = 295,           /* duration_field  */
+  YYSYMBOL_array_expr = 296,               /* array_expr  */
+  YYSYMBOL_array_index = 297,              /* array_index  */
+  YYSYMBOL_between_expr = 298,             /* between_expr  */
+  YYSYMBOL_column_name = 299,              /* column_name  */
+  YYSYMBOL_literal = 300,                  /* literal  */
+  YYSYMBOL_string_literal = 301,           /* string_literal  */
+  YYSYMBOL_bool_literal = 302,             /* bool_literal  */
+  YYSYMBOL_num_literal = 303,              /* num_literal  */
+  YYSYMBOL_int_literal = 304,              /* int_literal  */
+  YYSYMBOL_null_literal = 305,             /* null_literal  */
+  YYSYMBOL_date_literal = 306,             /* date_literal  */
+  YYSYMBOL_interval_literal = 307,         /* interval_literal  */
+  YYSYMBOL_param_expr = 308,               /* param_expr  */
+  YYSYMBOL_table_ref = 309,                /* table_ref  */
+  YYSYMBOL_table_ref_atomic = 310,         /* table_ref_atomic  */
+  YYSYMBOL_nonjoin_table_ref_atomic = 311, /* nonjoin_table_ref_atomic  */
+  YYSYMBOL_table_ref_commalist = 312,      /* table_ref_commalist  */
+  YYSYMBOL_table_ref_name = 313,           /* table_ref_name  */
+  YYSYMBOL_table_ref_name_no_alias = 314,  /* table_ref_name_no_alias  */
+  YYSYMBOL_table_name = 315,               /* table_name  */
+  YYSYMBOL_opt_index_name = 316,           /* opt_index_name  */
+  YYSYMBOL_table_alias = 317,              /* table_alias  */
+  YYSYMBOL_opt_table_alias = 318,          /* opt_table_alias  */
+  YYSYMBOL_alias = 319,                    /* alias  */
+  YYSYMBOL_opt_alias = 320,                /* opt_alias  */
+  YYSYMBOL_opt_locking_clause = 321,       /* opt_locking_clause  */
+  YYSYMBOL_opt_locking_clause_list = 322,  /* opt_locking_clause_list  */
+  YYSYMBOL_locking_clause = 323,           /* locking_clause  */
+  YYSYMBOL_row_lock_mode = 324,            /* row_lock_mode  */
+  YYSYMBOL_opt_row_lock_policy = 325,      /* opt_row_lock_policy  */
+  YYSYMBOL_opt_with_clause = 326,          /* opt_with_clause  */
+  YYSYMBOL_with_clause = 327,              /* with_clause  */
+  YYSYMBOL_with_description_list = 328,    /* with_description_list  */
+  YYSYMBOL_with_description = 329,         /* with_description  */
+  YYSYMBOL_join_clause = 330,              /* join_clause  */
+  YYSYMBOL_opt_join_type = 331,            /* opt_join_type  */
+  YYSYMBOL_join_condition = 332,           /* join_condition  */
+  YYSYMBOL_opt_semicolon = 333,            /* opt_semicolon  */
+  YYSYMBOL_ident_commalist = 334           /* ident_commalist  */
 };
+typedef enum yysymbol_kind_t yysymbol_kind_t;
 
-typedef union HSQL_STYPE HSQL_STYPE;
-# define HSQL_STYPE_IS_TRIVIAL 1
-# define HSQL_STYPE_IS_DECLARED 1
-#endif
-
-/* Location type.  */
-#if ! defined HSQL_LTYPE && ! defined HSQL_LTYPE_IS_DECLARED
-typedef struct HSQL_LTYPE HSQL_LTYPE;
-struct HSQL_LTYPE
-{
-  int first_line;
-  int first_column;
-  int last_line;
-  int last_column;
-};
-# define HSQL_LTYPE_IS_DECLARED 1
-# define HSQL_LTYPE_IS_TRIVIAL 1
-#endif
 
 
 
-int hsql_parse (hsql::SQLParserResult* result, yyscan_t scanner);
+#ifdef short
+# undef short
+#endif
 
-#endif /* !YY_HSQL_BISON_PARSER_H_INCLUDED  */
+/* On compilers that do not define __PTRDIFF_MAX__ etc., make sure
+   <limits.h> and (if available) <stdint.h> are included
+   so that the code can choose integer types of a good width.  */
 
-/* Copy the second part of user declarations.  */
+#ifndef __PTRDIFF_MAX__
+# include <limits.h> /* INFRINGES ON USER NAME SPACE */
+# if defined __STDC_VERSION__ && 199901 <= __STDC_VERSION__
+#  include <stdint.h> /* INFRINGES ON USER NAME SPACE */
+#  define YY_STDINT_H
+# endif
+#endif
 
-#line 465 "bison_parser.cpp" /* yacc.c:358  */
+/* Narrow types that promote to a signed type and that can represent a
+   signed or unsigned integer of at least N bits.  In tables they can
+   save space and decrease cache pressure.  Promoting to a signed type
+   helps avoid bugs in integer arithmetic.  */
 
-#ifdef short
-# undef short
+#ifdef __INT_LEAST8_MAX__
+typedef __INT_LEAST8_TYPE__ yytype_int8;
+#elif defined YY_STDINT_H
+typedef int_least8_t yytype_int8;
+#else
+typedef signed char yytype_int8;
 #endif
 
-#ifdef YYTYPE_UINT8
-typedef YYTYPE_UINT8 yytype_uint8;
+#ifdef __INT_LEAST16_MAX__
+typedef __INT_LEAST16_TYPE__ yytype_int16;
+#elif defined YY_STDINT_H
+typedef int_least16_t yytype_int16;
 #else
-typedef unsigned char yytype_uint8;
+typedef short yytype_int16;
 #endif
 
-#ifdef YYTYPE_INT8
-typedef YYTYPE_INT8 yytype_int8;
-#else
-typedef signed char yytype_int8;
+/* Work around bug in HP-UX 11.23, which defines these macros
+   incorrectly for preprocessor constants.  This workaround can likely
+   be removed in 2023, as HPE has promised support for HP-UX 11.23
+   (aka HP-UX 11i v2) only through the end of 2022; see Table 2 of
+   <https://h20195.www2.hpe.com/V2/getpdf.aspx/4AA4-7673ENW.pdf>.  */
+#ifdef __hpux
+# undef UINT_LEAST8_MAX
+# undef UINT_LEAST16_MAX
+# define UINT_LEAST8_MAX 255
+# define UINT_LEAST16_MAX 65535
 #endif
 
-#ifdef YYTYPE_UINT16
-typedef YYTYPE_UINT16 yytype_uint16;
+#if defined __UINT_LEAST8_MAX__ && __UINT_LEAST8_MAX__ <= __INT_MAX__
+typedef __UINT_LEAST8_TYPE__ yytype_uint8;
+#elif (!defined __UINT_LEAST8_MAX__ && defined YY_STDINT_H \
+       && UINT_LEAST8_MAX <= INT_MAX)
+typedef uint_least8_t yytype_uint8;
+#elif !defined __UINT_LEAST8_MAX__ && UCHAR_MAX <= INT_MAX
+typedef unsigned char yytype_uint8;
 #else
-typedef unsigned short int yytype_uint16;
+typedef short yytype_uint8;
 #endif
 
-#ifdef YYTYPE_INT16
-typedef YYTYPE_INT16 yytype_int16;
+#if defined __UINT_LEAST16_MAX__ && __UINT_LEAST16_MAX__ <= __INT_MAX__
+typedef __UINT_LEAST16_TYPE__ yytype_uint16;
+#elif (!defined __UINT_LEAST16_MAX__ && defined YY_STDINT_H \
+       && UINT_LEAST16_MAX <= INT_MAX)
+typedef uint_least16_t yytype_uint16;
+#elif !defined __UINT_LEAST16_MAX__ && USHRT_MAX <= INT_MAX
+typedef unsigned short yytype_uint16;
 #else
-typedef short int yytype_int16;
+typedef int yytype_uint16;
+#endif
+
+#ifndef YYPTRDIFF_T
+# if defined __PTRDIFF_TYPE__ && defined __PTRDIFF_MAX__
+#  define YYPTRDIFF_T __PTRDIFF_TYPE__
+#  define YYPTRDIFF_MAXIMUM __PTRDIFF_MAX__
+# elif defined PTRDIFF_MAX
+#  ifndef ptrdiff_t
+#   include <stddef.h> /* INFRINGES ON USER NAME SPACE */
+#  endif
+#  define YYPTRDIFF_T ptrdiff_t
+#  define YYPTRDIFF_MAXIMUM PTRDIFF_MAX
+# else
+#  define YYPTRDIFF_T long
+#  define YYPTRDIFF_MAXIMUM LONG_MAX
+# endif
 #endif
 
 #ifndef YYSIZE_T
@@ -496,15 +566,28 @@ typedef short int yytype_int16;
 #  define YYSIZE_T __SIZE_TYPE__
 # elif defined size_t
 #  define YYSIZE_T size_t
-# elif ! defined YYSIZE_T
+# elif defined __STDC_VERSION__ && 199901 <= __STDC_VERSION__
 #  include <stddef.h> /* INFRINGES ON USER NAME SPACE */
 #  define YYSIZE_T size_t
 # else
-#  define YYSIZE_T unsigned int
+#  define YYSIZE_T unsigned
 # endif
 #endif
 
-#define YYSIZE_MAXIMUM ((YYSIZE_T) -1)
+#define YYSIZE_MAXIMUM                                  \
+  YY_CAST (YYPTRDIFF_T,                                 \
+           (YYPTRDIFF_MAXIMUM < YY_CAST (YYSIZE_T, -1)  \
+            ? YYPTRDIFF_MAXIMUM                         \
+            : YY_CAST (YYSIZE_T, -1)))
+
+#define YYSIZEOF(X) YY_CAST (YYPTRDIFF_T, sizeof (X))
+
+
+/* Stored state numbers (used for stacks). */
+typedef yytype_int16 yy_state_t;
+
+/* State numbers in computations.  */
+typedef int yy_state_fast_t;
 
 #ifndef YY_
 # if defined YYENABLE_NLS && YYENABLE_NLS
@@ -518,47 +601,43 @@ typedef short int yytype_int16;
 # endif
 #endif
 
-#ifndef YY_ATTRIBUTE
-# if (defined __GNUC__                                               \
-      && (2 < __GNUC__ || (__GNUC__ == 2 && 96 <= __GNUC_MINOR__)))  \
-     || defined __SUNPRO_C && 0x5110 <= __SUNPRO_C
-#  define YY_ATTRIBUTE(Spec) __attribute__(Spec)
-# else
-#  define YY_ATTRIBUTE(Spec) /* empty */
-# endif
-#endif
 
 #ifndef YY_ATTRIBUTE_PURE
-# define YY_ATTRIBUTE_PURE   YY_ATTRIBUTE ((__pure__))
+# if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
+# else
+#  define YY_ATTRIBUTE_PURE
+# endif
 #endif
 
 #ifndef YY_ATTRIBUTE_UNUSED
-# define YY_ATTRIBUTE_UNUSED YY_ATTRIBUTE ((__unused__))
-#endif
-
-#if !defined _Noreturn \
-     && (!defined __STDC_VERSION__ || __STDC_VERSION__ < 201112)
-# if defined _MSC_VER && 1200 <= _MSC_VER
-#  define _Noreturn __declspec (noreturn)
+# if defined __GNUC__ && 2 < __GNUC__ + (7 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_UNUSED __attribute__ ((__unused__))
 # else
-#  define _Noreturn YY_ATTRIBUTE ((__noreturn__))
+#  define YY_ATTRIBUTE_UNUSED
 # endif
 #endif
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN \
-    _Pragma ("GCC diagnostic push") \
-    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")\
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
-# define YY_IGNORE_MAYBE_UNINITIALIZED_END \
+# endif
+# define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
 # define YY_INITIAL_VALUE(Value) Value
@@ -571,8 +650,22 @@ typedef short int yytype_int16;
 # define YY_INITIAL_VALUE(Value) /* Nothing. */
 #endif
 
+#if defined __cplusplus && defined __GNUC__ && ! defined __ICC && 6 <= __GNUC__
+# define YY_IGNORE_USELESS_CAST_BEGIN                          \
+    _Pragma ("GCC diagnostic push")                            \
+    _Pragma ("GCC diagnostic ignored \"-Wuseless-cast\"")
+# define YY_IGNORE_USELESS_CAST_END            \
+    _Pragma ("GCC diagnostic pop")
+#endif
+#ifndef YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_END
+#endif
 
-#if ! defined yyoverflow || YYERROR_VERBOSE
+
+#define YY_ASSERT(E) ((void) (0 && (E)))
+
+#if 1
 
 /* The parser invokes alloca or malloc; define the necessary symbols.  */
 
@@ -637,8 +730,7 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 #   endif
 #  endif
 # endif
-#endif /* ! defined yyoverflow || YYERROR_VERBOSE */
-
+#endif /* 1 */
 
 #if (! defined yyoverflow \
      && (! defined __cplusplus \
@@ -648,18 +740,19 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 /* A type that is properly aligned for any stack member.  */
 union yyalloc
 {
-  yytype_int16 yyss_alloc;
+  yy_state_t yyss_alloc;
   YYSTYPE yyvs_alloc;
   YYLTYPE yyls_alloc;
 };
 
 /* The size of the maximum gap between one aligned stack and the next.  */
-# define YYSTACK_GAP_MAXIMUM (sizeof (union yyalloc) - 1)
+# define YYSTACK_GAP_MAXIMUM (YYSIZEOF (union yyalloc) - 1)
 
 /* The size of an array large to enough to hold all stacks, each with
    N elements.  */
 # define YYSTACK_BYTES(N) \
-     ((N) * (sizeof (yytype_int16) + sizeof (YYSTYPE) + sizeof (YYLTYPE)) \
+     ((N) * (YYSIZEOF (yy_state_t) + YYSIZEOF (YYSTYPE) \
+             + YYSIZEOF (YYLTYPE)) \
       + 2 * YYSTACK_GAP_MAXIMUM)
 
 # define YYCOPY_NEEDED 1
@@ -672,11 +765,11 @@ union yyalloc
 # define YYSTACK_RELOCATE(Stack_alloc, Stack)                           \
     do                                                                  \
       {                                                                 \
-        YYSIZE_T yynewbytes;                                            \
+        YYPTRDIFF_T yynewbytes;                                         \
         YYCOPY (&yyptr->Stack_alloc, Stack, yysize);                    \
         Stack = &yyptr->Stack_alloc;                                    \
-        yynewbytes = yystacksize * sizeof (*Stack) + YYSTACK_GAP_MAXIMUM; \
-        yyptr += yynewbytes / sizeof (*yyptr);                          \
+        yynewbytes = yystacksize * YYSIZEOF (*Stack) + YYSTACK_GAP_MAXIMUM; \
+        yyptr += yynewbytes / YYSIZEOF (*yyptr);                        \
       }                                                                 \
     while (0)
 
@@ -688,12 +781,12 @@ union yyalloc
 # ifndef YYCOPY
 #  if defined __GNUC__ && 1 < __GNUC__
 #   define YYCOPY(Dst, Src, Count) \
-      __builtin_memcpy (Dst, Src, (Count) * sizeof (*(Src)))
+      __builtin_memcpy (Dst, Src, YY_CAST (YYSIZE_T, (Count)) * sizeof (*(Src)))
 #  else
 #   define YYCOPY(Dst, Src, Count)              \
       do                                        \
         {                                       \
-          YYSIZE_T yyi;                         \
+          YYPTRDIFF_T yyi;                      \
           for (yyi = 0; yyi < (Count); yyi++)   \
             (Dst)[yyi] = (Src)[yyi];            \
         }                                       \
@@ -716,16 +809,19 @@ union yyalloc
 /* YYNSTATES -- Number of states.  */
 #define YYNSTATES  656
 
-/* YYTRANSLATE[YYX] -- Symbol number corresponding to YYX as returned
-   by yylex, with out-of-bounds checking.  */
-#define YYUNDEFTOK  2
+/* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   436
 
-#define YYTRANSLATE(YYX)                                                \
-  ((unsigned int) (YYX) <= YYMAXUTOK ? yytranslate[YYX] : YYUNDEFTOK)
+
+/* YYTRANSLATE(TOKEN-NUM) -- Symbol number corresponding to TOKEN-NUM
+   as returned by yylex, with out-of-bounds checking.  */
+#define YYTRANSLATE(YYX)                                \
+  (0 <= (YYX) && (YYX) <= YYMAXUTOK                     \
+   ? YY_CAST (yysymbol_kind_t, yytranslate[YYX])        \
+   : YYSYMBOL_YYUNDEF)
 
 /* YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to TOKEN-NUM
-   as returned by yylex, without out-of-bounds checking.  */
+   as returned by yylex.  */
 static const yytype_uint8 yytranslate[] =
 {
        0,     2,     2,     2,     2,     2,     2,     2,     2,     2,
@@ -775,8 +871,8 @@ static const yytype_uint8 yytranslate[] =
 };
 
 #if HSQL_DEBUG
-  /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
-static const yytype_uint16 yyrline[] =
+/* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
+static const yytype_int16 yyrline[] =
 {
        0,   343,   343,   362,   368,   375,   379,   383,   384,   385,
      387,   388,   389,   390,   391,   392,   393,   394,   395,   396,
@@ -817,46 +913,54 @@ static const yytype_uint16 yyrline[] =
 };
 #endif
 
-#if HSQL_DEBUG || YYERROR_VERBOSE || 1
+/** Accessing symbol of state STATE.  */
+#define YY_ACCESSING_SYMBOL(State) YY_CAST (yysymbol_kind_t, yystos[State])
+
+#if 1
+/* The user-facing name of the symbol whose (internal) number is
+   YYSYMBOL.  No bounds checking.  */
+static const char *yysymbol_name (yysymbol_kind_t yysymbol) YY_ATTRIBUTE_UNUSED;
+
 /* YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
    First, the terminals, then, starting at YYNTOKENS, nonterminals.  */
 static const char *const yytname[] =
 {
-  "$end", "error", "$undefined", "IDENTIFIER", "STRING", "FLOATVAL",
-  "INTVAL", "DEALLOCATE", "PARAMETERS", "INTERSECT", "TEMPORARY",
-  "TIMESTAMP", "DISTINCT", "NVARCHAR", "RESTRICT", "TRUNCATE", "ANALYZE",
-  "BETWEEN", "CASCADE", "COLUMNS", "CONTROL", "DEFAULT", "EXECUTE",
-  "EXPLAIN", "ENCODING", "INTEGER", "NATURAL", "PREPARE", "SCHEMAS",
-  "CHARACTER_VARYING", "REAL", "DECIMAL", "SMALLINT", "BIGINT", "SPATIAL",
-  "VARCHAR", "VIRTUAL", "DESCRIBE", "BEFORE", "COLUMN", "CREATE", "DELETE",
-  "DIRECT", "DOUBLE", "ESCAPE", "EXCEPT", "EXISTS", "EXTRACT", "CAST",
-  "FORMAT", "GLOBAL", "HAVING", "IMPORT", "INSERT", "ISNULL", "OFFSET",
-  "RENAME", "SCHEMA", "SELECT", "SORTED", "TABLES", "UNLOAD", "UPDATE",
-  "VALUES", "AFTER", "ALTER", "CROSS", "DELTA", "FLOAT", "GROUP", "INDEX",
-  "INNER", "LIMIT", "LOCAL", "MERGE", "MINUS", "ORDER", "OVER", "OUTER",
-  "RIGHT", "TABLE", "UNION", "USING", "WHERE", "CALL", "CASE", "CHAR",
-  "COPY", "DATE", "DATETIME", "DESC", "DROP", "ELSE", "FILE", "FROM",
-  "FULL", "HASH", "HINT", "INTO", "JOIN", "LEFT", "LIKE", "LOAD", "LONG",
-  "NULL", "PARTITION", "PLAN", "SHOW", "TEXT", "THEN", "TIME", "VIEW",
-  "WHEN", "WITH", "ADD", "ALL", "AND", "ASC", "END", "FOR", "INT", "NOT",
-  "OFF", "SET", "TOP", "AS", "BY", "IF", "IN", "IS", "OF", "ON", "OR",
-  "TO", "NO", "ARRAY", "CONCAT", "ILIKE", "SECOND", "MINUTE", "HOUR",
-  "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS", "DAYS", "MONTHS",
-  "YEARS", "INTERVAL", "TRUE", "FALSE", "BOOLEAN", "TRANSACTION", "BEGIN",
-  "COMMIT", "ROLLBACK", "NOWAIT", "SKIP", "LOCKED", "SHARE", "RANGE",
-  "ROWS", "GROUPS", "UNBOUNDED", "FOLLOWING", "PRECEDING", "CURRENT_ROW",
-  "UNIQUE", "PRIMARY", "FOREIGN", "KEY", "REFERENCES", "'='", "EQUALS",
-  "NOTEQUALS", "'<'", "'>'", "LESS", "GREATER", "LESSEQ", "GREATEREQ",
-  "NOTNULL", "'+'", "'-'", "'*'", "'/'", "'%'", "'^'", "UMINUS", "'['",
-  "']'", "'('", "')'", "'.'", "';'", "','", "'?'", "$accept", "input",
-  "statement_list", "statement", "preparable_statement", "opt_hints",
-  "hint_list", "hint", "transaction_statement", "opt_transaction_keyword",
-  "prepare_statement", "prepare_target_query", "execute_statement",
-  "import_statement", "file_type", "file_path",
-  "opt_import_export_options", "import_export_options", "csv_option",
-  "export_statement", "show_statement", "create_statement",
-  "opt_not_exists", "table_elem_commalist", "table_elem", "column_def",
-  "column_type", "opt_time_precision", "opt_decimal_specification",
+  "\"end of file\"", "error", "\"invalid token\"", "IDENTIFIER", "STRING",
+  "FLOATVAL", "INTVAL", "DEALLOCATE", "PARAMETERS", "INTERSECT",
+  "TEMPORARY", "TIMESTAMP", "DISTINCT", "NVARCHAR", "RESTRICT", "TRUNCATE",
+  "ANALYZE", "BETWEEN", "CASCADE", "COLUMNS", "CONTROL", "DEFAULT",
+  "EXECUTE", "EXPLAIN", "ENCODING", "INTEGER", "NATURAL", "PREPARE",
+  "SCHEMAS", "CHARACTER_VARYING", "REAL", "DECIMAL", "SMALLINT", "BIGINT",
+  "SPATIAL", "VARCHAR", "VIRTUAL", "DESCRIBE", "BEFORE", "COLUMN",
+  "CREATE", "DELETE", "DIRECT", "DOUBLE", "ESCAPE", "EXCEPT", "EXISTS",
+  "EXTRACT", "CAST", "FORMAT", "GLOBAL", "HAVING", "IMPORT", "INSERT",
+  "ISNULL", "OFFSET", "RENAME", "SCHEMA", "SELECT", "SORTED", "TABLES",
+  "UNLOAD", "UPDATE", "VALUES", "AFTER", "ALTER", "CROSS", "DELTA",
+  "FLOAT", "GROUP", "INDEX", "INNER", "LIMIT", "LOCAL", "MERGE", "MINUS",
+  "ORDER", "OVER", "OUTER", "RIGHT", "TABLE", "UNION", "USING", "WHERE",
+  "CALL", "CASE", "CHAR", "COPY", "DATE", "DATETIME", "DESC", "DROP",
+  "ELSE", "FILE", "FROM", "FULL", "HASH", "HINT", "INTO", "JOIN", "LEFT",
+  "LIKE", "LOAD", "LONG", "NULL", "PARTITION", "PLAN", "SHOW", "TEXT",
+  "THEN", "TIME", "VIEW", "WHEN", "WITH", "ADD", "ALL", "AND", "ASC",
+  "END", "FOR", "INT", "NOT", "OFF", "SET", "TOP", "AS", "BY", "IF", "IN",
+  "IS", "OF", "ON", "OR", "TO", "NO", "ARRAY", "CONCAT", "ILIKE", "SECOND",
+  "MINUTE", "HOUR", "DAY", "MONTH", "YEAR", "SECONDS", "MINUTES", "HOURS",
+  "DAYS", "MONTHS", "YEARS", "INTERVAL", "TRUE", "FALSE", "BOOLEAN",
+  "TRANSACTION", "BEGIN", "COMMIT", "ROLLBACK", "NOWAIT", "SKIP", "LOCKED",
+  "SHARE", "RANGE", "ROWS", "GROUPS", "UNBOUNDED", "FOLLOWING",
+  "PRECEDING", "CURRENT_ROW", "UNIQUE", "PRIMARY", "FOREIGN", "KEY",
+  "REFERENCES", "'='", "EQUALS", "NOTEQUALS", "'<'", "'>'", "LESS",
+  "GREATER", "LESSEQ", "GREATEREQ", "NOTNULL", "'+'", "'-'", "'*'", "'/'",
+  "'%'", "'^'", "UMINUS", "'['", "']'", "'('", "')'", "'.'", "';'", "','",
+  "'?'", "$accept", "input", "statement_list", "statement",
+  "preparable_statement", "opt_hints", "hint_list", "hint",
+  "transaction_statement", "opt_transaction_keyword", "prepare_statement",
+  "prepare_target_query", "execute_statement", "import_statement",
+  "file_type", "file_path", "opt_import_export_options",
+  "import_export_options", "csv_option", "export_statement",
+  "show_statement", "create_statement", "opt_not_exists",
+  "table_elem_commalist", "table_elem", "column_def", "column_type",
+  "opt_time_precision", "opt_decimal_specification",
   "opt_column_constraints", "column_constraints", "column_constraint",
   "table_constraint", "references_spec", "drop_statement", "opt_exists",
   "alter_statement", "alter_action", "drop_action", "delete_statement",
@@ -887,48 +991,26 @@ static const char *const yytname[] =
   "with_description_list", "with_description", "join_clause",
   "opt_join_type", "join_condition", "opt_semicolon", "ident_commalist", YY_NULLPTR
 };
-#endif
 
-# ifdef YYPRINT
-/* YYTOKNUM[NUM] -- (External) token number corresponding to the
-   (internal) symbol number NUM (which must be that of a token).  */
-static const yytype_uint16 yytoknum[] =
+static const char *
+yysymbol_name (yysymbol_kind_t yysymbol)
 {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,   282,   283,   284,
-     285,   286,   287,   288,   289,   290,   291,   292,   293,   294,
-     295,   296,   297,   298,   299,   300,   301,   302,   303,   304,
-     305,   306,   307,   308,   309,   310,   311,   312,   313,   314,
-     315,   316,   317,   318,   319,   320,   321,   322,   323,   324,
-     325,   326,   327,   328,   329,   330,   331,   332,   333,   334,
-     335,   336,   337,   338,   339,   340,   341,   342,   343,   344,
-     345,   346,   347,   348,   349,   350,   351,   352,   353,   354,
-     355,   356,   357,   358,   359,   360,   361,   362,   363,   364,
-     365,   366,   367,   368,   369,   370,   371,   372,   373,   374,
-     375,   376,   377,   378,   379,   380,   381,   382,   383,   384,
-     385,   386,   387,   388,   389,   390,   391,   392,   393,   394,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     405,   406,   407,   408,   409,   410,   411,   412,   413,   414,
-     415,   416,   417,   418,   419,   420,   421,   422,   423,   424,
-     425,   426,   427,   428,    61,   429,   430,    60,    62,   431,
-     432,   433,   434,   435,    43,    45,    42,    47,    37,    94,
-     436,    91,    93,    40,    41,    46,    59,    44,    63
-};
-# endif
+  return yytname[yysymbol];
+}
+#endif
 
-#define YYPACT_NINF -529
+#define YYPACT_NINF (-529)
 
-#define yypact_value_is_default(Yystate) \
-  (!!((Yystate) == (-529)))
+#define yypact_value_is_default(Yyn) \
+  ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF -355
+#define YYTABLE_NINF (-355)
 
-#define yytable_value_is_error(Yytable_value) \
-  (!!((Yytable_value) == (-355)))
+#define yytable_value_is_error(Yyn) \
+  ((Yyn) == YYTABLE_NINF)
 
-  /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-     STATE-NUM.  */
+/* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+   STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
      595,    27,    65,    71,    99,    65,   113,    83,   137,   140,
@@ -999,10 +1081,10 @@ static const yytype_int16 yypact[] =
      625,  -529,  -529,  -529,    55,  -529
 };
 
-  /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-     Performed when YYTABLE does not specify something else to do.  Zero
-     means the default is an error.  */
-static const yytype_uint16 yydefact[] =
+/* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+   Performed when YYTABLE does not specify something else to do.  Zero
+   means the default is an error.  */
+static const yytype_int16 yydefact[] =
 {
      335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,    30,    30,    30,     0,
@@ -1072,7 +1154,7 @@ static const yytype_uint16 yydefact[] =
        0,   254,   252,   342,     0,   247
 };
 
-  /* YYPGOTO[NTERM-NUM].  */
+/* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
     -529,  -529,  -529,   673,  -529,   720,  -529,   399,  -529,   428,
@@ -1091,10 +1173,10 @@ static const yytype_int16 yypgoto[] =
      675,  -529,  -529,  -529,  -529,  -354
 };
 
-  /* YYDEFGOTO[NTERM-NUM].  */
+/* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int16 yydefgoto[] =
 {
-      -1,    19,    20,    21,    22,    73,   259,   260,    23,    66,
+       0,    19,    20,    21,    22,    73,   259,   260,    23,    66,
       24,   143,    25,    26,    89,   162,   255,   344,   345,    27,
       28,    29,    84,   288,   289,   290,   394,   488,   484,   494,
      495,   496,   291,   497,    30,    93,    31,   251,   252,    32,
@@ -1110,9 +1192,9 @@ static const yytype_int16 yydefgoto[] =
       64,   463,   538,   638,    71,   244
 };
 
-  /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-     positive, shift that token.  If negative, reduce the rule whose
-     number is the opposite.  If YYTABLE_NINF, syntax error.  */
+/* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+   positive, shift that token.  If negative, reduce the rule whose
+   number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int16 yytable[] =
 {
       41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
@@ -1293,9 +1375,9 @@ static const yytype_int16 yycheck[] =
      143,   144,   145,   146,   147,   148,   149
 };
 
-  /* YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-     symbol of state STATE-NUM.  */
-static const yytype_uint16 yystos[] =
+/* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+   state STATE-NUM.  */
+static const yytype_int16 yystos[] =
 {
        0,     7,    15,    22,    27,    37,    40,    41,    52,    53,
       62,    65,    87,    91,   107,   113,   155,   156,   157,   200,
@@ -1365,8 +1447,8 @@ static const yytype_uint16 yystos[] =
      290,   166,   167,   194,   116,   290
 };
 
-  /* YYR1[YYN] -- Symbol number of symbol that rule YYN derives.  */
-static const yytype_uint16 yyr1[] =
+/* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
+static const yytype_int16 yyr1[] =
 {
        0,   199,   200,   201,   201,   202,   202,   202,   202,   202,
      203,   203,   203,   203,   203,   203,   203,   203,   203,   203,
@@ -1406,8 +1488,8 @@ static const yytype_uint16 yyr1[] =
      331,   331,   331,   332,   333,   333,   334,   334
 };
 
-  /* YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.  */
-static const yytype_uint8 yyr2[] =
+/* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
+static const yytype_int8 yyr2[] =
 {
        0,     2,     2,     1,     3,     2,     2,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
@@ -1448,39 +1530,39 @@ static const yytype_uint8 yyr2[] =
 };
 
 
+enum { YYENOMEM = -2 };
+
 #define yyerrok         (yyerrstatus = 0)
-#define yyclearin       (yychar = YYEMPTY)
-#define YYEMPTY         (-2)
-#define YYEOF           0
+#define yyclearin       (yychar = SQL_HSQL_EMPTY)
 
 #define YYACCEPT        goto yyacceptlab
 #define YYABORT         goto yyabortlab
 #define YYERROR         goto yyerrorlab
+#define YYNOMEM         goto yyexhaustedlab
 
 
 #define YYRECOVERING()  (!!yyerrstatus)
 
-#define YYBACKUP(Token, Value)                                  \
-do                                                              \
-  if (yychar == YYEMPTY)                                        \
-    {                                                           \
-      yychar = (Token);                                         \
-      yylval = (Value);                                         \
-      YYPOPSTACK (yylen);                                       \
-      yystate = *yyssp;                                         \
-      goto yybackup;                                            \
-    }                                                           \
-  else                                                          \
-    {                                                           \
-      yyerror (&yylloc, result, scanner, YY_("syntax error: cannot back up")); \
-      YYERROR;                                                  \
-    }                                                           \
-while (0)
-
-/* Error token number */
-#define YYTERROR        1
-#define YYERRCODE       256
-
+#define YYBACKUP(Token, Value)                                    \
+  do                                                              \
+    if (yychar == SQL_HSQL_EMPTY)                                        \
+      {                                                           \
+        yychar = (Token);                                         \
+        yylval = (Value);                                         \
+        YYPOPSTACK (yylen);                                       \
+        yystate = *yyssp;                                         \
+        goto yybackup;                                            \
+      }                                                           \
+    else                                                          \
+      {                                                           \
+        yyerror (&yylloc, result, scanner, YY_("syntax error: cannot back up")); \
+        YYERROR;                                                  \
+      }                                                           \
+  while (0)
+
+/* Backward compatibility with an undocumented macro.
+   Use SQL_HSQL_error or SQL_HSQL_UNDEF. */
+#define YYERRCODE SQL_HSQL_UNDEF
 
 /* YYLLOC_DEFAULT -- Set CURRENT to span from RHS[1] to RHS[N].
    If N is 0, then set CURRENT to the empty location which ends
@@ -1524,20 +1606,27 @@ do {                                            \
 } while (0)
 
 
-/* YY_LOCATION_PRINT -- Print the location on the stream.
+/* YYLOCATION_PRINT -- Print the location on the stream.
    This macro was not mandated originally: define only if we know
    we won't break user code: when these are the locations we know.  */
 
-#ifndef YY_LOCATION_PRINT
-# if defined HSQL_LTYPE_IS_TRIVIAL && HSQL_LTYPE_IS_TRIVIAL
+# ifndef YYLOCATION_PRINT
+
+#  if defined YY_LOCATION_PRINT
+
+   /* Temporary convenience wrapper in case some people defined the
+      undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YYLOCATION_PRINT(File, Loc)  YY_LOCATION_PRINT(File, *(Loc))
+
+#  elif defined HSQL_LTYPE_IS_TRIVIAL && HSQL_LTYPE_IS_TRIVIAL
 
 /* Print *YYLOCP on YYO.  Private, do not rely on its existence. */
 
 YY_ATTRIBUTE_UNUSED
-static unsigned
+static int
 yy_location_print_ (FILE *yyo, YYLTYPE const * const yylocp)
 {
-  unsigned res = 0;
+  int res = 0;
   int end_col = 0 != yylocp->last_column ? yylocp->last_column - 1 : 0;
   if (0 <= yylocp->first_line)
     {
@@ -1557,65 +1646,73 @@ yy_location_print_ (FILE *yyo, YYLTYPE const * const yylocp)
         res += YYFPRINTF (yyo, "-%d", end_col);
     }
   return res;
- }
+}
 
-#  define YY_LOCATION_PRINT(File, Loc)          \
-  yy_location_print_ (File, &(Loc))
+#   define YYLOCATION_PRINT  yy_location_print_
 
-# else
-#  define YY_LOCATION_PRINT(File, Loc) ((void) 0)
-# endif
-#endif
+    /* Temporary convenience wrapper in case some people defined the
+       undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YY_LOCATION_PRINT(File, Loc)  YYLOCATION_PRINT(File, &(Loc))
+
+#  else
+
+#   define YYLOCATION_PRINT(File, Loc) ((void) 0)
+    /* Temporary convenience wrapper in case some people defined the
+       undocumented and private YY_LOCATION_PRINT macros.  */
+#   define YY_LOCATION_PRINT  YYLOCATION_PRINT
+
+#  endif
+# endif /* !defined YYLOCATION_PRINT */
 
 
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)                    \
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)                    \
 do {                                                                      \
   if (yydebug)                                                            \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, Location, result, scanner); \
+                  Kind, Value, Location, result, scanner); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
 
 
-/*----------------------------------------.
-| Print this symbol's value on YYOUTPUT.  |
-`----------------------------------------*/
+/*-----------------------------------.
+| Print this symbol's value on YYO.  |
+`-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_symbol_value_print (FILE *yyo,
+                       yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  FILE *yyo = yyoutput;
-  YYUSE (yyo);
-  YYUSE (yylocationp);
-  YYUSE (result);
-  YYUSE (scanner);
+  FILE *yyoutput = yyo;
+  YY_USE (yyoutput);
+  YY_USE (yylocationp);
+  YY_USE (result);
+  YY_USE (scanner);
   if (!yyvaluep)
     return;
-# ifdef YYPRINT
-  if (yytype < YYNTOKENS)
-    YYPRINT (yyoutput, yytoknum[yytype], *yyvaluep);
-# endif
-  YYUSE (yytype);
+  YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
+  YY_USE (yykind);
+  YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
 
-/*--------------------------------.
-| Print this symbol on YYOUTPUT.  |
-`--------------------------------*/
+/*---------------------------.
+| Print this symbol on YYO.  |
+`---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_symbol_print (FILE *yyo,
+                 yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, YYLTYPE const * const yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  YYFPRINTF (yyoutput, "%s %s (",
-             yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
+  YYFPRINTF (yyo, "%s %s (",
+             yykind < YYNTOKENS ? "token" : "nterm", yysymbol_name (yykind));
 
-  YY_LOCATION_PRINT (yyoutput, *yylocationp);
-  YYFPRINTF (yyoutput, ": ");
-  yy_symbol_value_print (yyoutput, yytype, yyvaluep, yylocationp, result, scanner);
-  YYFPRINTF (yyoutput, ")");
+  YYLOCATION_PRINT (yyo, yylocationp);
+  YYFPRINTF (yyo, ": ");
+  yy_symbol_value_print (yyo, yykind, yyvaluep, yylocationp, result, scanner);
+  YYFPRINTF (yyo, ")");
 }
 
 /*------------------------------------------------------------------.
@@ -1624,7 +1721,7 @@ yy_symbol_print (FILE *yyoutput, int yytype, YYSTYPE const * const yyvaluep, YYL
 `------------------------------------------------------------------*/
 
 static void
-yy_stack_print (yytype_int16 *yybottom, yytype_int16 *yytop)
+yy_stack_print (yy_state_t *yybottom, yy_state_t *yytop)
 {
   YYFPRINTF (stderr, "Stack now");
   for (; yybottom <= yytop; yybottom++)
@@ -1647,21 +1744,22 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yytype_int16 *yyssp, YYSTYPE *yyvsp, YYLTYPE *yylsp, int yyrule, hsql::SQLParserResult* result, yyscan_t scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, YYLTYPE *yylsp,
+                 int yyrule, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  unsigned long int yylno = yyrline[yyrule];
+  int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
   int yyi;
-  YYFPRINTF (stderr, "Reducing stack by rule %d (line %lu):\n",
+  YYFPRINTF (stderr, "Reducing stack by rule %d (line %d):\n",
              yyrule - 1, yylno);
   /* The symbols being reduced.  */
   for (yyi = 0; yyi < yynrhs; yyi++)
     {
       YYFPRINTF (stderr, "   $%d = ", yyi + 1);
       yy_symbol_print (stderr,
-                       yystos[yyssp[yyi + 1 - yynrhs]],
-                       &(yyvsp[(yyi + 1) - (yynrhs)])
-                       , &(yylsp[(yyi + 1) - (yynrhs)])                       , result, scanner);
+                       YY_ACCESSING_SYMBOL (+yyssp[yyi + 1 - yynrhs]),
+                       &yyvsp[(yyi + 1) - (yynrhs)],
+                       &(yylsp[(yyi + 1) - (yynrhs)]), result, scanner);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -1676,8 +1774,8 @@ do {                                    \
    multiple parsers can coexist.  */
 int yydebug;
 #else /* !HSQL_DEBUG */
-# define YYDPRINTF(Args)
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)
+# define YYDPRINTF(Args) ((void) 0)
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)
 # define YY_STACK_PRINT(Bottom, Top)
 # define YY_REDUCE_PRINT(Rule)
 #endif /* !HSQL_DEBUG */
@@ -1700,28 +1798,77 @@ int yydebug;
 #endif
 
 
-#if YYERROR_VERBOSE
+/* Context of a parse error.  */
+typedef struct
+{
+  yy_state_t *yyssp;
+  yysymbol_kind_t yytoken;
+  YYLTYPE *yylloc;
+} yypcontext_t;
+
+/* Put in YYARG at most YYARGN of the expected tokens given the
+   current YYCTX, and return the number of tokens stored in YYARG.  If
+   YYARG is null, return the number of expected tokens (guaranteed to
+   be less than YYNTOKENS).  Return YYENOMEM on memory exhaustion.
+   Return 0 if there are more than YYARGN expected tokens, yet fill
+   YYARG up to YYARGN. */
+static int
+yypcontext_expected_tokens (const yypcontext_t *yyctx,
+                            yysymbol_kind_t yyarg[], int yyargn)
+{
+  /* Actual size of YYARG. */
+  int yycount = 0;
+  int yyn = yypact[+*yyctx->yyssp];
+  if (!yypact_value_is_default (yyn))
+    {
+      /* Start YYX at -YYN if negative to avoid negative indexes in
+         YYCHECK.  In other words, skip the first -YYN actions for
+         this state because they are default actions.  */
+      int yyxbegin = yyn < 0 ? -yyn : 0;
+      /* Stay within bounds of both yycheck and yytname.  */
+      int yychecklim = YYLAST - yyn + 1;
+      int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+      int yyx;
+      for (yyx = yyxbegin; yyx < yyxend; ++yyx)
+        if (yycheck[yyx + yyn] == yyx && yyx != YYSYMBOL_YYerror
+            && !yytable_value_is_error (yytable[yyx + yyn]))
+          {
+            if (!yyarg)
+              ++yycount;
+            else if (yycount == yyargn)
+              return 0;
+            else
+              yyarg[yycount++] = YY_CAST (yysymbol_kind_t, yyx);
+          }
+    }
+  if (yyarg && yycount == 0 && 0 < yyargn)
+    yyarg[0] = YYSYMBOL_YYEMPTY;
+  return yycount;
+}
+
+
 
-# ifndef yystrlen
-#  if defined __GLIBC__ && defined _STRING_H
-#   define yystrlen strlen
-#  else
+
+#ifndef yystrlen
+# if defined __GLIBC__ && defined _STRING_H
+#  define yystrlen(S) (YY_CAST (YYPTRDIFF_T, strlen (S)))
+# else
 /* Return the length of YYSTR.  */
-static YYSIZE_T
+static YYPTRDIFF_T
 yystrlen (const char *yystr)
 {
-  YYSIZE_T yylen;
+  YYPTRDIFF_T yylen;
   for (yylen = 0; yystr[yylen]; yylen++)
     continue;
   return yylen;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yystpcpy
-#  if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
-#   define yystpcpy stpcpy
-#  else
+#ifndef yystpcpy
+# if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
+#  define yystpcpy stpcpy
+# else
 /* Copy YYSRC to YYDEST, returning the address of the terminating '\0' in
    YYDEST.  */
 static char *
@@ -1735,10 +1882,10 @@ yystpcpy (char *yydest, const char *yysrc)
 
   return yyd - 1;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yytnamerr
+#ifndef yytnamerr
 /* Copy to YYRES the contents of YYSTR after stripping away unnecessary
    quotes and backslashes, so that it's suitable for yyerror.  The
    heuristic is that double-quoting is unnecessary unless the string
@@ -1746,14 +1893,13 @@ yystpcpy (char *yydest, const char *yysrc)
    backslash-backslash).  YYSTR is taken from yytname.  If YYRES is
    null, do not copy; instead, return the length of what the result
    would have been.  */
-static YYSIZE_T
+static YYPTRDIFF_T
 yytnamerr (char *yyres, const char *yystr)
 {
   if (*yystr == '"')
     {
-      YYSIZE_T yyn = 0;
+      YYPTRDIFF_T yyn = 0;
       char const *yyp = yystr;
-
       for (;;)
         switch (*++yyp)
           {
@@ -1764,7 +1910,10 @@ yytnamerr (char *yyres, const char *yystr)
           case '\\':
             if (*++yyp != '\\')
               goto do_not_strip_quotes;
-            /* Fall through.  */
+            else
+              goto append;
+
+          append:
           default:
             if (yyres)
               yyres[yyn] = *yyp;
@@ -1779,36 +1928,20 @@ yytnamerr (char *yyres, const char *yystr)
     do_not_strip_quotes: ;
     }
 
-  if (! yyres)
+  if (yyres)
+    return yystpcpy (yyres, yystr) - yyres;
+  else
     return yystrlen (yystr);
-
-  return yystpcpy (yyres, yystr) - yyres;
 }
-# endif
+#endif
 
-/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
-   about the unexpected token YYTOKEN for the state stack whose top is
-   YYSSP.
 
-   Return 0 if *YYMSG was successfully written.  Return 1 if *YYMSG is
-   not large enough to hold the message.  In that case, also set
-   *YYMSG_ALLOC to the required number of bytes.  Return 2 if the
-   required number of bytes is too large to store.  */
 static int
-yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
-                yytype_int16 *yyssp, int yytoken)
+yy_syntax_error_arguments (const yypcontext_t *yyctx,
+                           yysymbol_kind_t yyarg[], int yyargn)
 {
-  YYSIZE_T yysize0 = yytnamerr (YY_NULLPTR, yytname[yytoken]);
-  YYSIZE_T yysize = yysize0;
-  enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-  /* Internationalized format string. */
-  const char *yyformat = YY_NULLPTR;
-  /* Arguments of yyformat. */
-  char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
-  /* Number of reported tokens (one for the "unexpected", one per
-     "expected"). */
+  /* Actual size of YYARG. */
   int yycount = 0;
-
   /* There are many possibilities here to consider:
      - If this state is a consistent state with a default action, then
        the only way this function was invoked is if the default action
@@ -1832,63 +1965,78 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
        one exception: it will still contain any token that will not be
        accepted due to an error action in a later state.
   */
-  if (yytoken != YYEMPTY)
+  if (yyctx->yytoken != YYSYMBOL_YYEMPTY)
     {
-      int yyn = yypact[*yyssp];
-      yyarg[yycount++] = yytname[yytoken];
-      if (!yypact_value_is_default (yyn))
-        {
-          /* Start YYX at -YYN if negative to avoid negative indexes in
-             YYCHECK.  In other words, skip the first -YYN actions for
-             this state because they are default actions.  */
-          int yyxbegin = yyn < 0 ? -yyn : 0;
-          /* Stay within bounds of both yycheck and yytname.  */
-          int yychecklim = YYLAST - yyn + 1;
-          int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
-          int yyx;
-
-          for (yyx = yyxbegin; yyx < yyxend; ++yyx)
-            if (yycheck[yyx + yyn] == yyx && yyx != YYTERROR
-                && !yytable_value_is_error (yytable[yyx + yyn]))
-              {
-                if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                  {
-                    yycount = 1;
-                    yysize = yysize0;
-                    break;
-                  }
-                yyarg[yycount++] = yytname[yyx];
-                {
-                  YYSIZE_T yysize1 = yysize + yytnamerr (YY_NULLPTR, yytname[yyx]);
-                  if (! (yysize <= yysize1
-                         && yysize1 <= YYSTACK_ALLOC_MAXIMUM))
-                    return 2;
-                  yysize = yysize1;
-                }
-              }
-        }
+      int yyn;
+      if (yyarg)
+        yyarg[yycount] = yyctx->yytoken;
+      ++yycount;
+      yyn = yypcontext_expected_tokens (yyctx,
+                                        yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+      if (yyn == YYENOMEM)
+        return YYENOMEM;
+      else
+        yycount += yyn;
     }
+  return yycount;
+}
+
+/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
+   about the unexpected token YYTOKEN for the state stack whose top is
+   YYSSP.
+
+   Return 0 if *YYMSG was successfully written.  Return -1 if *YYMSG is
+   not large enough to hold the message.  In that case, also set
+   *YYMSG_ALLOC to the required number of bytes.  Return YYENOMEM if the
+   required number of bytes is too large to store.  */
+static int
+yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
+                const yypcontext_t *yyctx)
+{
+  enum { YYARGS_MAX = 5 };
+  /* Internationalized format string. */
+  const char *yyformat = YY_NULLPTR;
+  /* Arguments of yyformat: reported tokens (one for the "unexpected",
+     one per "expected"). */
+  yysymbol_kind_t yyarg[YYARGS_MAX];
+  /* Cumulated lengths of YYARG.  */
+  YYPTRDIFF_T yysize = 0;
+
+  /* Actual size of YYARG. */
+  int yycount = yy_syntax_error_arguments (yyctx, yyarg, YYARGS_MAX);
+  if (yycount == YYENOMEM)
+    return YYENOMEM;
 
   switch (yycount)
     {
-# define YYCASE_(N, S)                      \
+#define YYCASE_(N, S)                       \
       case N:                               \
         yyformat = S;                       \
-      break
+        break
+    default: /* Avoid compiler warnings. */
       YYCASE_(0, YY_("syntax error"));
       YYCASE_(1, YY_("syntax error, unexpected %s"));
       YYCASE_(2, YY_("syntax error, unexpected %s, expecting %s"));
       YYCASE_(3, YY_("syntax error, unexpected %s, expecting %s or %s"));
       YYCASE_(4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
       YYCASE_(5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-# undef YYCASE_
+#undef YYCASE_
     }
 
+  /* Compute error message size.  Don't count the "%s"s, but reserve
+     room for the terminator.  */
+  yysize = yystrlen (yyformat) - 2 * yycount + 1;
   {
-    YYSIZE_T yysize1 = yysize + yystrlen (yyformat);
-    if (! (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM))
-      return 2;
-    yysize = yysize1;
+    int yyi;
+    for (yyi = 0; yyi < yycount; ++yyi)
+      {
+        YYPTRDIFF_T yysize1
+          = yysize + yytnamerr (YY_NULLPTR, yytname[yyarg[yyi]]);
+        if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
+          yysize = yysize1;
+        else
+          return YYENOMEM;
+      }
   }
 
   if (*yymsg_alloc < yysize)
@@ -1897,7 +2045,7 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
       if (! (yysize <= *yymsg_alloc
              && *yymsg_alloc <= YYSTACK_ALLOC_MAXIMUM))
         *yymsg_alloc = YYSTACK_ALLOC_MAXIMUM;
-      return 1;
+      return -1;
     }
 
   /* Avoid sprintf, as that infringes on the user's name space.
@@ -1909,64 +2057,65 @@ yysyntax_error (YYSIZE_T *yymsg_alloc, char **yymsg,
     while ((*yyp = *yyformat) != '\0')
       if (*yyp == '%' && yyformat[1] == 's' && yyi < yycount)
         {
-          yyp += yytnamerr (yyp, yyarg[yyi++]);
+          yyp += yytnamerr (yyp, yytname[yyarg[yyi++]]);
           yyformat += 2;
         }
       else
         {
-          yyp++;
-          yyformat++;
+          ++yyp;
+          ++yyformat;
         }
   }
   return 0;
 }
-#endif /* YYERROR_VERBOSE */
+
 
 /*-----------------------------------------------.
 | Release the memory associated to this symbol.  |
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
+yydestruct (const char *yymsg,
+            yysymbol_kind_t yykind, YYSTYPE *yyvaluep, YYLTYPE *yylocationp, hsql::SQLParserResult* result, yyscan_t scanner)
 {
-  YYUSE (yyvaluep);
-  YYUSE (yylocationp);
-  YYUSE (result);
-  YYUSE (scanner);
+  YY_USE (yyvaluep);
+  YY_USE (yylocationp);
+  YY_USE (result);
+  YY_USE (scanner);
   if (!yymsg)
     yymsg = "Deleting";
-  YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
+  YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  switch (yytype)
+  switch (yykind)
     {
-          case 3: /* IDENTIFIER  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 1947 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2096 "bison_parser.cpp"
         break;
 
-    case 4: /* STRING  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 1953 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_STRING: /* STRING  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2102 "bison_parser.cpp"
         break;
 
-    case 5: /* FLOATVAL  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 1959 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
+#line 181 "bison_parser.y"
+            { }
+#line 2108 "bison_parser.cpp"
         break;
 
-    case 6: /* INTVAL  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 1965 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_INTVAL: /* INTVAL  */
+#line 181 "bison_parser.y"
+            { }
+#line 2114 "bison_parser.cpp"
         break;
 
-    case 201: /* statement_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_statement_list: /* statement_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
       delete ptr;
@@ -1974,24 +2123,24 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 1978 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2127 "bison_parser.cpp"
         break;
 
-    case 202: /* statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).statement)); }
-#line 1984 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_statement: /* statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).statement)); }
+#line 2133 "bison_parser.cpp"
         break;
 
-    case 203: /* preparable_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).statement)); }
-#line 1990 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_preparable_statement: /* preparable_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).statement)); }
+#line 2139 "bison_parser.cpp"
         break;
 
-    case 204: /* opt_hints  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_hints: /* opt_hints  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -1999,12 +2148,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2003 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2152 "bison_parser.cpp"
         break;
 
-    case 205: /* hint_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_hint_list: /* hint_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2012,105 +2161,105 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2016 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2165 "bison_parser.cpp"
         break;
 
-    case 206: /* hint  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2022 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_hint: /* hint  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2171 "bison_parser.cpp"
         break;
 
-    case 207: /* transaction_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).transaction_stmt)); }
-#line 2028 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_transaction_statement: /* transaction_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).transaction_stmt)); }
+#line 2177 "bison_parser.cpp"
         break;
 
-    case 209: /* prepare_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).prep_stmt)); }
-#line 2034 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_prepare_statement: /* prepare_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).prep_stmt)); }
+#line 2183 "bison_parser.cpp"
         break;
 
-    case 210: /* prepare_target_query  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2040 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2189 "bison_parser.cpp"
         break;
 
-    case 211: /* execute_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).exec_stmt)); }
-#line 2046 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_execute_statement: /* execute_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).exec_stmt)); }
+#line 2195 "bison_parser.cpp"
         break;
 
-    case 212: /* import_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_stmt)); }
-#line 2052 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_import_statement: /* import_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).import_stmt)); }
+#line 2201 "bison_parser.cpp"
         break;
 
-    case 213: /* file_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2058 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_file_type: /* file_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2207 "bison_parser.cpp"
         break;
 
-    case 214: /* file_path  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2064 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_file_path: /* file_path  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2213 "bison_parser.cpp"
         break;
 
-    case 215: /* opt_import_export_options  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_export_option_t)); }
-#line 2070 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).import_export_option_t)); }
+#line 2219 "bison_parser.cpp"
         break;
 
-    case 216: /* import_export_options  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).import_export_option_t)); }
-#line 2076 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_import_export_options: /* import_export_options  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).import_export_option_t)); }
+#line 2225 "bison_parser.cpp"
         break;
 
-    case 217: /* csv_option  */
-#line 203 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_csv_option: /* csv_option  */
+#line 203 "bison_parser.y"
+            {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 2085 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2234 "bison_parser.cpp"
         break;
 
-    case 218: /* export_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).export_stmt)); }
-#line 2091 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_export_statement: /* export_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).export_stmt)); }
+#line 2240 "bison_parser.cpp"
         break;
 
-    case 219: /* show_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).show_stmt)); }
-#line 2097 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_show_statement: /* show_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).show_stmt)); }
+#line 2246 "bison_parser.cpp"
         break;
 
-    case 220: /* create_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).create_stmt)); }
-#line 2103 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_create_statement: /* create_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).create_stmt)); }
+#line 2252 "bison_parser.cpp"
         break;
 
-    case 221: /* opt_not_exists  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2109 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
+#line 181 "bison_parser.y"
+            { }
+#line 2258 "bison_parser.cpp"
         break;
 
-    case 222: /* table_elem_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
       delete ptr;
@@ -2118,120 +2267,120 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 2122 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2271 "bison_parser.cpp"
         break;
 
-    case 223: /* table_elem  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table_element_t)); }
-#line 2128 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_elem: /* table_elem  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table_element_t)); }
+#line 2277 "bison_parser.cpp"
         break;
 
-    case 224: /* column_def  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_t)); }
-#line 2134 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_def: /* column_def  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).column_t)); }
+#line 2283 "bison_parser.cpp"
         break;
 
-    case 225: /* column_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2140 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_type: /* column_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2289 "bison_parser.cpp"
         break;
 
-    case 226: /* opt_time_precision  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2146 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
+#line 181 "bison_parser.y"
+            { }
+#line 2295 "bison_parser.cpp"
         break;
 
-    case 227: /* opt_decimal_specification  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).ival_pair)); }
-#line 2152 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).ival_pair)); }
+#line 2301 "bison_parser.cpp"
         break;
 
-    case 228: /* opt_column_constraints  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_constraints_t)); }
-#line 2158 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).column_constraints_t)); }
+#line 2307 "bison_parser.cpp"
         break;
 
-    case 229: /* column_constraints  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).column_constraints_t)); }
-#line 2164 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_constraints: /* column_constraints  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).column_constraints_t)); }
+#line 2313 "bison_parser.cpp"
         break;
 
-    case 230: /* column_constraint  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2170 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_constraint: /* column_constraint  */
+#line 181 "bison_parser.y"
+            { }
+#line 2319 "bison_parser.cpp"
         break;
 
-    case 231: /* table_constraint  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table_constraint_t)); }
-#line 2176 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_constraint: /* table_constraint  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table_constraint_t)); }
+#line 2325 "bison_parser.cpp"
         break;
 
-    case 232: /* references_spec  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).references_spec_t)); }
-#line 2182 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_references_spec: /* references_spec  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).references_spec_t)); }
+#line 2331 "bison_parser.cpp"
         break;
 
-    case 233: /* drop_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).drop_stmt)); }
-#line 2188 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_drop_statement: /* drop_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).drop_stmt)); }
+#line 2337 "bison_parser.cpp"
         break;
 
-    case 234: /* opt_exists  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2194 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_exists: /* opt_exists  */
+#line 181 "bison_parser.y"
+            { }
+#line 2343 "bison_parser.cpp"
         break;
 
-    case 235: /* alter_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alter_stmt)); }
-#line 2200 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alter_statement: /* alter_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alter_stmt)); }
+#line 2349 "bison_parser.cpp"
         break;
 
-    case 236: /* alter_action  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alter_action_t)); }
-#line 2206 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alter_action: /* alter_action  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alter_action_t)); }
+#line 2355 "bison_parser.cpp"
         break;
 
-    case 237: /* drop_action  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).drop_action_t)); }
-#line 2212 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_drop_action: /* drop_action  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).drop_action_t)); }
+#line 2361 "bison_parser.cpp"
         break;
 
-    case 238: /* delete_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).delete_stmt)); }
-#line 2218 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_delete_statement: /* delete_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).delete_stmt)); }
+#line 2367 "bison_parser.cpp"
         break;
 
-    case 239: /* truncate_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).delete_stmt)); }
-#line 2224 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_truncate_statement: /* truncate_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).delete_stmt)); }
+#line 2373 "bison_parser.cpp"
         break;
 
-    case 240: /* insert_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).insert_stmt)); }
-#line 2230 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_insert_statement: /* insert_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).insert_stmt)); }
+#line 2379 "bison_parser.cpp"
         break;
 
-    case 241: /* opt_column_list  */
-#line 186 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_column_list: /* opt_column_list  */
+#line 186 "bison_parser.y"
+            {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
       free(ptr);
@@ -2239,18 +2388,18 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2243 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2392 "bison_parser.cpp"
         break;
 
-    case 242: /* update_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).update_stmt)); }
-#line 2249 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_update_statement: /* update_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).update_stmt)); }
+#line 2398 "bison_parser.cpp"
         break;
 
-    case 243: /* update_clause_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).update_vec)) {
     for (auto ptr : *(((*yyvaluep).update_vec))) {
       delete ptr;
@@ -2258,78 +2407,78 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 2262 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2411 "bison_parser.cpp"
         break;
 
-    case 244: /* update_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).update_t)); }
-#line 2268 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_update_clause: /* update_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).update_t)); }
+#line 2417 "bison_parser.cpp"
         break;
 
-    case 245: /* select_statement  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2274 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_statement: /* select_statement  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2423 "bison_parser.cpp"
         break;
 
-    case 246: /* select_within_set_operation  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2280 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2429 "bison_parser.cpp"
         break;
 
-    case 247: /* select_within_set_operation_no_parentheses  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2286 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2435 "bison_parser.cpp"
         break;
 
-    case 248: /* select_with_paren  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2292 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_with_paren: /* select_with_paren  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2441 "bison_parser.cpp"
         break;
 
-    case 249: /* select_no_paren  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2298 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_no_paren: /* select_no_paren  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2447 "bison_parser.cpp"
         break;
 
-    case 250: /* set_operator  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).set_operator_t)); }
-#line 2304 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_set_operator: /* set_operator  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).set_operator_t)); }
+#line 2453 "bison_parser.cpp"
         break;
 
-    case 251: /* set_type  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).set_operator_t)); }
-#line 2310 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_set_type: /* set_type  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).set_operator_t)); }
+#line 2459 "bison_parser.cpp"
         break;
 
-    case 252: /* opt_all  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2316 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_all: /* opt_all  */
+#line 181 "bison_parser.y"
+            { }
+#line 2465 "bison_parser.cpp"
         break;
 
-    case 253: /* select_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).select_stmt)); }
-#line 2322 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_select_clause: /* select_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).select_stmt)); }
+#line 2471 "bison_parser.cpp"
         break;
 
-    case 254: /* opt_distinct  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2328 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_distinct: /* opt_distinct  */
+#line 181 "bison_parser.y"
+            { }
+#line 2477 "bison_parser.cpp"
         break;
 
-    case 255: /* select_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_select_list: /* select_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2337,42 +2486,42 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2341 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2490 "bison_parser.cpp"
         break;
 
-    case 256: /* opt_from_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2347 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2496 "bison_parser.cpp"
         break;
 
-    case 257: /* from_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2353 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_from_clause: /* from_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2502 "bison_parser.cpp"
         break;
 
-    case 258: /* opt_where  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2359 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_where: /* opt_where  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2508 "bison_parser.cpp"
         break;
 
-    case 259: /* opt_group  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).group_t)); }
-#line 2365 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_group: /* opt_group  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).group_t)); }
+#line 2514 "bison_parser.cpp"
         break;
 
-    case 260: /* opt_having  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2371 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_having: /* opt_having  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2520 "bison_parser.cpp"
         break;
 
-    case 261: /* opt_order  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_order: /* opt_order  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
       delete ptr;
@@ -2380,12 +2529,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2384 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2533 "bison_parser.cpp"
         break;
 
-    case 262: /* order_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_order_list: /* order_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
       delete ptr;
@@ -2393,42 +2542,42 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2397 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2546 "bison_parser.cpp"
         break;
 
-    case 263: /* order_desc  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).order)); }
-#line 2403 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_order_desc: /* order_desc  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).order)); }
+#line 2552 "bison_parser.cpp"
         break;
 
-    case 264: /* opt_order_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2409 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_order_type: /* opt_order_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2558 "bison_parser.cpp"
         break;
 
-    case 265: /* opt_null_ordering  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2415 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
+#line 181 "bison_parser.y"
+            { }
+#line 2564 "bison_parser.cpp"
         break;
 
-    case 266: /* opt_top  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).limit)); }
-#line 2421 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_top: /* opt_top  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).limit)); }
+#line 2570 "bison_parser.cpp"
         break;
 
-    case 267: /* opt_limit  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).limit)); }
-#line 2427 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_limit: /* opt_limit  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).limit)); }
+#line 2576 "bison_parser.cpp"
         break;
 
-    case 268: /* expr_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_expr_list: /* expr_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2436,12 +2585,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2440 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2589 "bison_parser.cpp"
         break;
 
-    case 269: /* opt_extended_literal_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2449,12 +2598,12 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2453 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2602 "bison_parser.cpp"
         break;
 
-    case 270: /* extended_literal_list  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2462,108 +2611,108 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2466 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2615 "bison_parser.cpp"
         break;
 
-    case 271: /* casted_extended_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2472 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2621 "bison_parser.cpp"
         break;
 
-    case 272: /* extended_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2478 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_extended_literal: /* extended_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2627 "bison_parser.cpp"
         break;
 
-    case 273: /* expr_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2484 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_expr_alias: /* expr_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2633 "bison_parser.cpp"
         break;
 
-    case 274: /* expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2490 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_expr: /* expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2639 "bison_parser.cpp"
         break;
 
-    case 275: /* operand  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2496 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_operand: /* operand  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2645 "bison_parser.cpp"
         break;
 
-    case 276: /* scalar_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2502 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_scalar_expr: /* scalar_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2651 "bison_parser.cpp"
         break;
 
-    case 277: /* unary_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2508 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2657 "bison_parser.cpp"
         break;
 
-    case 278: /* binary_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2514 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_binary_expr: /* binary_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2663 "bison_parser.cpp"
         break;
 
-    case 279: /* logic_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2520 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_logic_expr: /* logic_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2669 "bison_parser.cpp"
         break;
 
-    case 280: /* in_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2526 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_in_expr: /* in_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2675 "bison_parser.cpp"
         break;
 
-    case 281: /* case_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2532 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_case_expr: /* case_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2681 "bison_parser.cpp"
         break;
 
-    case 282: /* case_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2538 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_case_list: /* case_list  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2687 "bison_parser.cpp"
         break;
 
-    case 283: /* exists_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2544 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_exists_expr: /* exists_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2693 "bison_parser.cpp"
         break;
 
-    case 284: /* comp_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2550 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_comp_expr: /* comp_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2699 "bison_parser.cpp"
         break;
 
-    case 285: /* function_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2556 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_function_expr: /* function_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2705 "bison_parser.cpp"
         break;
 
-    case 286: /* opt_window  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).window_description)); }
-#line 2562 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_window: /* opt_window  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).window_description)); }
+#line 2711 "bison_parser.cpp"
         break;
 
-    case 287: /* opt_partition  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_opt_partition: /* opt_partition  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
       delete ptr;
@@ -2571,156 +2720,156 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2575 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2724 "bison_parser.cpp"
         break;
 
-    case 288: /* opt_frame_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).frame_description)); }
-#line 2581 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).frame_description)); }
+#line 2730 "bison_parser.cpp"
         break;
 
-    case 289: /* frame_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2587 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_frame_type: /* frame_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2736 "bison_parser.cpp"
         break;
 
-    case 290: /* frame_bound  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).frame_bound)); }
-#line 2593 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_frame_bound: /* frame_bound  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).frame_bound)); }
+#line 2742 "bison_parser.cpp"
         break;
 
-    case 291: /* extract_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2599 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_extract_expr: /* extract_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2748 "bison_parser.cpp"
         break;
 
-    case 292: /* cast_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2605 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_cast_expr: /* cast_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2754 "bison_parser.cpp"
         break;
 
-    case 293: /* datetime_field  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2611 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_datetime_field: /* datetime_field  */
+#line 181 "bison_parser.y"
+            { }
+#line 2760 "bison_parser.cpp"
         break;
 
-    case 294: /* datetime_field_plural  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2617 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
+#line 181 "bison_parser.y"
+            { }
+#line 2766 "bison_parser.cpp"
         break;
 
-    case 295: /* duration_field  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2623 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_duration_field: /* duration_field  */
+#line 181 "bison_parser.y"
+            { }
+#line 2772 "bison_parser.cpp"
         break;
 
-    case 296: /* array_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2629 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_array_expr: /* array_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2778 "bison_parser.cpp"
         break;
 
-    case 297: /* array_index  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2635 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_array_index: /* array_index  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2784 "bison_parser.cpp"
         break;
 
-    case 298: /* between_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2641 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_between_expr: /* between_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2790 "bison_parser.cpp"
         break;
 
-    case 299: /* column_name  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2647 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_column_name: /* column_name  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2796 "bison_parser.cpp"
         break;
 
-    case 300: /* literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2653 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_literal: /* literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2802 "bison_parser.cpp"
         break;
 
-    case 301: /* string_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2659 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_string_literal: /* string_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2808 "bison_parser.cpp"
         break;
 
-    case 302: /* bool_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2665 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_bool_literal: /* bool_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2814 "bison_parser.cpp"
         break;
 
-    case 303: /* num_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2671 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_num_literal: /* num_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2820 "bison_parser.cpp"
         break;
 
-    case 304: /* int_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2677 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_int_literal: /* int_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2826 "bison_parser.cpp"
         break;
 
-    case 305: /* null_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2683 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_null_literal: /* null_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2832 "bison_parser.cpp"
         break;
 
-    case 306: /* date_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2689 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_date_literal: /* date_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2838 "bison_parser.cpp"
         break;
 
-    case 307: /* interval_literal  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2695 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_interval_literal: /* interval_literal  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2844 "bison_parser.cpp"
         break;
 
-    case 308: /* param_expr  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2701 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_param_expr: /* param_expr  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 2850 "bison_parser.cpp"
         break;
 
-    case 309: /* table_ref  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2707 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref: /* table_ref  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2856 "bison_parser.cpp"
         break;
 
-    case 310: /* table_ref_atomic  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2713 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2862 "bison_parser.cpp"
         break;
 
-    case 311: /* nonjoin_table_ref_atomic  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2719 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2868 "bison_parser.cpp"
         break;
 
-    case 312: /* table_ref_commalist  */
-#line 195 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
+#line 195 "bison_parser.y"
+            {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
       delete ptr;
@@ -2728,135 +2877,135 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 2732 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2881 "bison_parser.cpp"
         break;
 
-    case 313: /* table_ref_name  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2738 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_name: /* table_ref_name  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2887 "bison_parser.cpp"
         break;
 
-    case 314: /* table_ref_name_no_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2744 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2893 "bison_parser.cpp"
         break;
 
-    case 315: /* table_name  */
-#line 182 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_table_name: /* table_name  */
+#line 182 "bison_parser.y"
+            {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 2753 "bison_parser.cpp" /* yacc.c:1257  */
+#line 2902 "bison_parser.cpp"
         break;
 
-    case 316: /* opt_index_name  */
-#line 194 "bison_parser.y" /* yacc.c:1257  */
-      { free(((*yyvaluep).sval)); }
-#line 2759 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_index_name: /* opt_index_name  */
+#line 194 "bison_parser.y"
+            { free(((*yyvaluep).sval)); }
+#line 2908 "bison_parser.cpp"
         break;
 
-    case 317: /* table_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2765 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_table_alias: /* table_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2914 "bison_parser.cpp"
         break;
 
-    case 318: /* opt_table_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2771 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2920 "bison_parser.cpp"
         break;
 
-    case 319: /* alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2777 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_alias: /* alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2926 "bison_parser.cpp"
         break;
 
-    case 320: /* opt_alias  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).alias_t)); }
-#line 2783 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_alias: /* opt_alias  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).alias_t)); }
+#line 2932 "bison_parser.cpp"
         break;
 
-    case 321: /* opt_locking_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2789 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).locking_clause_vec)); }
+#line 2938 "bison_parser.cpp"
         break;
 
-    case 322: /* opt_locking_clause_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2795 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).locking_clause_vec)); }
+#line 2944 "bison_parser.cpp"
         break;
 
-    case 323: /* locking_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).locking_t)); }
-#line 2801 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_locking_clause: /* locking_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).locking_t)); }
+#line 2950 "bison_parser.cpp"
         break;
 
-    case 324: /* row_lock_mode  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2807 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
+#line 181 "bison_parser.y"
+            { }
+#line 2956 "bison_parser.cpp"
         break;
 
-    case 325: /* opt_row_lock_policy  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2813 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
+#line 181 "bison_parser.y"
+            { }
+#line 2962 "bison_parser.cpp"
         break;
 
-    case 326: /* opt_with_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2819 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_vec)); }
+#line 2968 "bison_parser.cpp"
         break;
 
-    case 327: /* with_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2825 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_clause: /* with_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_vec)); }
+#line 2974 "bison_parser.cpp"
         break;
 
-    case 328: /* with_description_list  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_vec)); }
-#line 2831 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_description_list: /* with_description_list  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_vec)); }
+#line 2980 "bison_parser.cpp"
         break;
 
-    case 329: /* with_description  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).with_description_t)); }
-#line 2837 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_with_description: /* with_description  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).with_description_t)); }
+#line 2986 "bison_parser.cpp"
         break;
 
-    case 330: /* join_clause  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).table)); }
-#line 2843 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_join_clause: /* join_clause  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).table)); }
+#line 2992 "bison_parser.cpp"
         break;
 
-    case 331: /* opt_join_type  */
-#line 181 "bison_parser.y" /* yacc.c:1257  */
-      { }
-#line 2849 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_opt_join_type: /* opt_join_type  */
+#line 181 "bison_parser.y"
+            { }
+#line 2998 "bison_parser.cpp"
         break;
 
-    case 332: /* join_condition  */
-#line 207 "bison_parser.y" /* yacc.c:1257  */
-      { delete (((*yyvaluep).expr)); }
-#line 2855 "bison_parser.cpp" /* yacc.c:1257  */
+    case YYSYMBOL_join_condition: /* join_condition  */
+#line 207 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 3004 "bison_parser.cpp"
         break;
 
-    case 334: /* ident_commalist  */
-#line 186 "bison_parser.y" /* yacc.c:1257  */
-      {
+    case YYSYMBOL_ident_commalist: /* ident_commalist  */
+#line 186 "bison_parser.y"
+            {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
       free(ptr);
@@ -2864,10 +3013,9 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2868 "bison_parser.cpp" /* yacc.c:1257  */
+#line 3017 "bison_parser.cpp"
         break;
 
-
       default:
         break;
     }
@@ -2877,6 +3025,8 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
 
 
 
+
+
 /*----------.
 | yyparse.  |
 `----------*/
@@ -2884,7 +3034,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, YYLTYPE *yylocatio
 int
 yyparse (hsql::SQLParserResult* result, yyscan_t scanner)
 {
-/* The lookahead symbol.  */
+/* Lookahead token kind.  */
 int yychar;
 
 
@@ -2903,55 +3053,50 @@ static YYLTYPE yyloc_default
 YYLTYPE yylloc = yyloc_default;
 
     /* Number of syntax errors so far.  */
-    int yynerrs;
+    int yynerrs = 0;
 
-    int yystate;
+    yy_state_fast_t yystate = 0;
     /* Number of tokens to shift before error messages enabled.  */
-    int yyerrstatus;
-
-    /* The stacks and their tools:
-       'yyss': related to states.
-       'yyvs': related to semantic values.
-       'yyls': related to locations.
+    int yyerrstatus = 0;
 
-       Refer to the stacks through separate pointers, to allow yyoverflow
+    /* Refer to the stacks through separate pointers, to allow yyoverflow
        to reallocate them elsewhere.  */
 
-    /* The state stack.  */
-    yytype_int16 yyssa[YYINITDEPTH];
-    yytype_int16 *yyss;
-    yytype_int16 *yyssp;
+    /* Their size.  */
+    YYPTRDIFF_T yystacksize = YYINITDEPTH;
 
-    /* The semantic value stack.  */
+    /* The state stack: array, bottom, top.  */
+    yy_state_t yyssa[YYINITDEPTH];
+    yy_state_t *yyss = yyssa;
+    yy_state_t *yyssp = yyss;
+
+    /* The semantic value stack: array, bottom, top.  */
     YYSTYPE yyvsa[YYINITDEPTH];
-    YYSTYPE *yyvs;
-    YYSTYPE *yyvsp;
+    YYSTYPE *yyvs = yyvsa;
+    YYSTYPE *yyvsp = yyvs;
 
-    /* The location stack.  */
+    /* The location stack: array, bottom, top.  */
     YYLTYPE yylsa[YYINITDEPTH];
-    YYLTYPE *yyls;
-    YYLTYPE *yylsp;
-
-    /* The locations where the error started and ended.  */
-    YYLTYPE yyerror_range[3];
-
-    YYSIZE_T yystacksize;
+    YYLTYPE *yyls = yylsa;
+    YYLTYPE *yylsp = yyls;
 
   int yyn;
+  /* The return value of yyparse.  */
   int yyresult;
-  /* Lookahead token as an internal (translated) token number.  */
-  int yytoken = 0;
+  /* Lookahead symbol kind.  */
+  yysymbol_kind_t yytoken = YYSYMBOL_YYEMPTY;
   /* The variables used to return semantic value and location from the
      action routines.  */
   YYSTYPE yyval;
   YYLTYPE yyloc;
 
-#if YYERROR_VERBOSE
+  /* The locations where the error started and ended.  */
+  YYLTYPE yyerror_range[3];
+
   /* Buffer for error messages, and its allocated size.  */
   char yymsgbuf[128];
   char *yymsg = yymsgbuf;
-  YYSIZE_T yymsg_alloc = sizeof yymsgbuf;
-#endif
+  YYPTRDIFF_T yymsg_alloc = sizeof yymsgbuf;
 
 #define YYPOPSTACK(N)   (yyvsp -= (N), yyssp -= (N), yylsp -= (N))
 
@@ -2959,20 +3104,13 @@ YYLTYPE yylloc = yyloc_default;
      Keep to zero when no symbol should be popped.  */
   int yylen = 0;
 
-  yyssp = yyss = yyssa;
-  yyvsp = yyvs = yyvsa;
-  yylsp = yyls = yylsa;
-  yystacksize = YYINITDEPTH;
-
   YYDPRINTF ((stderr, "Starting parse\n"));
 
-  yystate = 0;
-  yyerrstatus = 0;
-  yynerrs = 0;
-  yychar = YYEMPTY; /* Cause a token to be read.  */
+  yychar = SQL_HSQL_EMPTY; /* Cause a token to be read.  */
+
 
 /* User initialization code.  */
-#line 81 "bison_parser.y" /* yacc.c:1429  */
+#line 81 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -2983,33 +3121,47 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 2987 "bison_parser.cpp" /* yacc.c:1429  */
+#line 3125 "bison_parser.cpp"
+
   yylsp[0] = yylloc;
   goto yysetstate;
 
+
 /*------------------------------------------------------------.
-| yynewstate -- Push a new state, which is found in yystate.  |
+| yynewstate -- push a new state, which is found in yystate.  |
 `------------------------------------------------------------*/
- yynewstate:
+yynewstate:
   /* In all cases, when you get here, the value and location stacks
      have just been pushed.  So pushing a state here evens the stacks.  */
   yyssp++;
 
- yysetstate:
-  *yyssp = yystate;
+
+/*--------------------------------------------------------------------.
+| yysetstate -- set current state (the top of the stack) to yystate.  |
+`--------------------------------------------------------------------*/
+yysetstate:
+  YYDPRINTF ((stderr, "Entering state %d\n", yystate));
+  YY_ASSERT (0 <= yystate && yystate < YYNSTATES);
+  YY_IGNORE_USELESS_CAST_BEGIN
+  *yyssp = YY_CAST (yy_state_t, yystate);
+  YY_IGNORE_USELESS_CAST_END
+  YY_STACK_PRINT (yyss, yyssp);
 
   if (yyss + yystacksize - 1 <= yyssp)
+#if !defined yyoverflow && !defined YYSTACK_RELOCATE
+    YYNOMEM;
+#else
     {
       /* Get the current used size of the three stacks, in elements.  */
-      YYSIZE_T yysize = yyssp - yyss + 1;
+      YYPTRDIFF_T yysize = yyssp - yyss + 1;
 
-#ifdef yyoverflow
+# if defined yyoverflow
       {
         /* Give user a chance to reallocate the stack.  Use copies of
            these so that the &'s don't force the real ones into
            memory.  */
+        yy_state_t *yyss1 = yyss;
         YYSTYPE *yyvs1 = yyvs;
-        yytype_int16 *yyss1 = yyss;
         YYLTYPE *yyls1 = yyls;
 
         /* Each stack pointer address is followed by the size of the
@@ -3017,32 +3169,29 @@ YYLTYPE yylloc = yyloc_default;
            conditional around just the two extra args, but that might
            be undefined if yyoverflow is a macro.  */
         yyoverflow (YY_("memory exhausted"),
-                    &yyss1, yysize * sizeof (*yyssp),
-                    &yyvs1, yysize * sizeof (*yyvsp),
-                    &yyls1, yysize * sizeof (*yylsp),
+                    &yyss1, yysize * YYSIZEOF (*yyssp),
+                    &yyvs1, yysize * YYSIZEOF (*yyvsp),
+                    &yyls1, yysize * YYSIZEOF (*yylsp),
                     &yystacksize);
-
-        yyls = yyls1;
         yyss = yyss1;
         yyvs = yyvs1;
+        yyls = yyls1;
       }
-#else /* no yyoverflow */
-# ifndef YYSTACK_RELOCATE
-      goto yyexhaustedlab;
-# else
+# else /* defined YYSTACK_RELOCATE */
       /* Extend the stack our own way.  */
       if (YYMAXDEPTH <= yystacksize)
-        goto yyexhaustedlab;
+        YYNOMEM;
       yystacksize *= 2;
       if (YYMAXDEPTH < yystacksize)
         yystacksize = YYMAXDEPTH;
 
       {
-        yytype_int16 *yyss1 = yyss;
+        yy_state_t *yyss1 = yyss;
         union yyalloc *yyptr =
-          (union yyalloc *) YYSTACK_ALLOC (YYSTACK_BYTES (yystacksize));
+          YY_CAST (union yyalloc *,
+                   YYSTACK_ALLOC (YY_CAST (YYSIZE_T, YYSTACK_BYTES (yystacksize))));
         if (! yyptr)
-          goto yyexhaustedlab;
+          YYNOMEM;
         YYSTACK_RELOCATE (yyss_alloc, yyss);
         YYSTACK_RELOCATE (yyvs_alloc, yyvs);
         YYSTACK_RELOCATE (yyls_alloc, yyls);
@@ -3051,31 +3200,32 @@ YYLTYPE yylloc = yyloc_default;
           YYSTACK_FREE (yyss1);
       }
 # endif
-#endif /* no yyoverflow */
 
       yyssp = yyss + yysize - 1;
       yyvsp = yyvs + yysize - 1;
       yylsp = yyls + yysize - 1;
 
-      YYDPRINTF ((stderr, "Stack size increased to %lu\n",
-                  (unsigned long int) yystacksize));
+      YY_IGNORE_USELESS_CAST_BEGIN
+      YYDPRINTF ((stderr, "Stack size increased to %ld\n",
+                  YY_CAST (long, yystacksize)));
+      YY_IGNORE_USELESS_CAST_END
 
       if (yyss + yystacksize - 1 <= yyssp)
         YYABORT;
     }
+#endif /* !defined yyoverflow && !defined YYSTACK_RELOCATE */
 
-  YYDPRINTF ((stderr, "Entering state %d\n", yystate));
 
   if (yystate == YYFINAL)
     YYACCEPT;
 
   goto yybackup;
 
+
 /*-----------.
 | yybackup.  |
 `-----------*/
 yybackup:
-
   /* Do appropriate processing given the current state.  Read a
      lookahead token if we need one and don't already have one.  */
 
@@ -3086,18 +3236,30 @@ yybackup:
 
   /* Not known => get a lookahead token if don't already have one.  */
 
-  /* YYCHAR is either YYEMPTY or YYEOF or a valid lookahead symbol.  */
-  if (yychar == YYEMPTY)
+  /* YYCHAR is either empty, or end-of-input, or a valid lookahead.  */
+  if (yychar == SQL_HSQL_EMPTY)
     {
-      YYDPRINTF ((stderr, "Reading a token: "));
+      YYDPRINTF ((stderr, "Reading a token\n"));
       yychar = yylex (&yylval, &yylloc, scanner);
     }
 
-  if (yychar <= YYEOF)
+  if (yychar <= SQL_YYEOF)
     {
-      yychar = yytoken = YYEOF;
+      yychar = SQL_YYEOF;
+      yytoken = YYSYMBOL_YYEOF;
       YYDPRINTF ((stderr, "Now at end of input.\n"));
     }
+  else if (yychar == SQL_HSQL_error)
+    {
+      /* The scanner already issued an error message, process directly
+         to error recovery.  But do not keep the error token as
+         lookahead, it is too special and may lead us to an endless
+         loop in error recovery. */
+      yychar = SQL_HSQL_UNDEF;
+      yytoken = YYSYMBOL_YYerror;
+      yyerror_range[1] = yylloc;
+      goto yyerrlab1;
+    }
   else
     {
       yytoken = YYTRANSLATE (yychar);
@@ -3125,15 +3287,14 @@ yybackup:
 
   /* Shift the lookahead token.  */
   YY_SYMBOL_PRINT ("Shifting", yytoken, &yylval, &yylloc);
-
-  /* Discard the shifted token.  */
-  yychar = YYEMPTY;
-
   yystate = yyn;
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
   *++yyvsp = yylval;
   YY_IGNORE_MAYBE_UNINITIALIZED_END
   *++yylsp = yylloc;
+
+  /* Discard the shifted token.  */
+  yychar = SQL_HSQL_EMPTY;
   goto yynewstate;
 
 
@@ -3148,7 +3309,7 @@ yydefault:
 
 
 /*-----------------------------.
-| yyreduce -- Do a reduction.  |
+| yyreduce -- do a reduction.  |
 `-----------------------------*/
 yyreduce:
   /* yyn is the number of a rule to reduce with.  */
@@ -3164,14 +3325,15 @@ yyreduce:
      GCC warning that YYVAL may be used uninitialized.  */
   yyval = yyvsp[1-yylen];
 
-  /* Default location.  */
+  /* Default location. */
   YYLLOC_DEFAULT (yyloc, (yylsp - yylen), yylen);
+  yyerror_range[1] = yyloc;
   YY_REDUCE_PRINT (yyn);
   switch (yyn)
     {
-        case 2:
-#line 343 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 2: /* input: statement_list opt_semicolon  */
+#line 343 "bison_parser.y"
+                                     {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
@@ -3188,237 +3350,237 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3192 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3354 "bison_parser.cpp"
     break;
 
-  case 3:
-#line 362 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 3: /* statement_list: statement  */
+#line 362 "bison_parser.y"
+                           {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3203 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3365 "bison_parser.cpp"
     break;
 
-  case 4:
-#line 368 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 4: /* statement_list: statement_list ';' statement  */
+#line 368 "bison_parser.y"
+                               {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3214 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3376 "bison_parser.cpp"
     break;
 
-  case 5:
-#line 375 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 5: /* statement: prepare_statement opt_hints  */
+#line 375 "bison_parser.y"
+                                        {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3223 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3385 "bison_parser.cpp"
     break;
 
-  case 6:
-#line 379 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 6: /* statement: preparable_statement opt_hints  */
+#line 379 "bison_parser.y"
+                                 {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3232 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3394 "bison_parser.cpp"
     break;
 
-  case 7:
-#line 383 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3238 "bison_parser.cpp" /* yacc.c:1646  */
+  case 7: /* statement: show_statement  */
+#line 383 "bison_parser.y"
+                 { (yyval.statement) = (yyvsp[0].show_stmt); }
+#line 3400 "bison_parser.cpp"
     break;
 
-  case 8:
-#line 384 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3244 "bison_parser.cpp" /* yacc.c:1646  */
+  case 8: /* statement: import_statement  */
+#line 384 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].import_stmt); }
+#line 3406 "bison_parser.cpp"
     break;
 
-  case 9:
-#line 385 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3250 "bison_parser.cpp" /* yacc.c:1646  */
+  case 9: /* statement: export_statement  */
+#line 385 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].export_stmt); }
+#line 3412 "bison_parser.cpp"
     break;
 
-  case 10:
-#line 387 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3256 "bison_parser.cpp" /* yacc.c:1646  */
+  case 10: /* preparable_statement: select_statement  */
+#line 387 "bison_parser.y"
+                                        { (yyval.statement) = (yyvsp[0].select_stmt); }
+#line 3418 "bison_parser.cpp"
     break;
 
-  case 11:
-#line 388 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3262 "bison_parser.cpp" /* yacc.c:1646  */
+  case 11: /* preparable_statement: create_statement  */
+#line 388 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].create_stmt); }
+#line 3424 "bison_parser.cpp"
     break;
 
-  case 12:
-#line 389 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3268 "bison_parser.cpp" /* yacc.c:1646  */
+  case 12: /* preparable_statement: insert_statement  */
+#line 389 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].insert_stmt); }
+#line 3430 "bison_parser.cpp"
     break;
 
-  case 13:
-#line 390 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3274 "bison_parser.cpp" /* yacc.c:1646  */
+  case 13: /* preparable_statement: delete_statement  */
+#line 390 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].delete_stmt); }
+#line 3436 "bison_parser.cpp"
     break;
 
-  case 14:
-#line 391 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3280 "bison_parser.cpp" /* yacc.c:1646  */
+  case 14: /* preparable_statement: truncate_statement  */
+#line 391 "bison_parser.y"
+                     { (yyval.statement) = (yyvsp[0].delete_stmt); }
+#line 3442 "bison_parser.cpp"
     break;
 
-  case 15:
-#line 392 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3286 "bison_parser.cpp" /* yacc.c:1646  */
+  case 15: /* preparable_statement: update_statement  */
+#line 392 "bison_parser.y"
+                   { (yyval.statement) = (yyvsp[0].update_stmt); }
+#line 3448 "bison_parser.cpp"
     break;
 
-  case 16:
-#line 393 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3292 "bison_parser.cpp" /* yacc.c:1646  */
+  case 16: /* preparable_statement: drop_statement  */
+#line 393 "bison_parser.y"
+                 { (yyval.statement) = (yyvsp[0].drop_stmt); }
+#line 3454 "bison_parser.cpp"
     break;
 
-  case 17:
-#line 394 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3298 "bison_parser.cpp" /* yacc.c:1646  */
+  case 17: /* preparable_statement: alter_statement  */
+#line 394 "bison_parser.y"
+                  { (yyval.statement) = (yyvsp[0].alter_stmt); }
+#line 3460 "bison_parser.cpp"
     break;
 
-  case 18:
-#line 395 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3304 "bison_parser.cpp" /* yacc.c:1646  */
+  case 18: /* preparable_statement: execute_statement  */
+#line 395 "bison_parser.y"
+                    { (yyval.statement) = (yyvsp[0].exec_stmt); }
+#line 3466 "bison_parser.cpp"
     break;
 
-  case 19:
-#line 396 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3310 "bison_parser.cpp" /* yacc.c:1646  */
+  case 19: /* preparable_statement: transaction_statement  */
+#line 396 "bison_parser.y"
+                        { (yyval.statement) = (yyvsp[0].transaction_stmt); }
+#line 3472 "bison_parser.cpp"
     break;
 
-  case 20:
-#line 402 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3316 "bison_parser.cpp" /* yacc.c:1646  */
+  case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
+#line 402 "bison_parser.y"
+                                        { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
+#line 3478 "bison_parser.cpp"
     break;
 
-  case 21:
-#line 403 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 3322 "bison_parser.cpp" /* yacc.c:1646  */
+  case 21: /* opt_hints: %empty  */
+#line 403 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 3484 "bison_parser.cpp"
     break;
 
-  case 22:
-#line 405 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 22: /* hint_list: hint  */
+#line 405 "bison_parser.y"
+                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3331 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3493 "bison_parser.cpp"
     break;
 
-  case 23:
-#line 409 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 23: /* hint_list: hint_list ',' hint  */
+#line 409 "bison_parser.y"
+                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3340 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3502 "bison_parser.cpp"
     break;
 
-  case 24:
-#line 414 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 24: /* hint: IDENTIFIER  */
+#line 414 "bison_parser.y"
+                  {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3349 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3511 "bison_parser.cpp"
     break;
 
-  case 25:
-#line 418 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
+#line 418 "bison_parser.y"
+                                           {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3359 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3521 "bison_parser.cpp"
     break;
 
-  case 26:
-#line 428 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3365 "bison_parser.cpp" /* yacc.c:1646  */
+  case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
+#line 428 "bison_parser.y"
+                                                      { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
+#line 3527 "bison_parser.cpp"
     break;
 
-  case 27:
-#line 429 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3371 "bison_parser.cpp" /* yacc.c:1646  */
+  case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
+#line 429 "bison_parser.y"
+                                   { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
+#line 3533 "bison_parser.cpp"
     break;
 
-  case 28:
-#line 430 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3377 "bison_parser.cpp" /* yacc.c:1646  */
+  case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
+#line 430 "bison_parser.y"
+                                 { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
+#line 3539 "bison_parser.cpp"
     break;
 
-  case 31:
-#line 438 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
+#line 438 "bison_parser.y"
+                                                                 {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3387 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3549 "bison_parser.cpp"
     break;
 
-  case 33:
-#line 446 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 33: /* execute_statement: EXECUTE IDENTIFIER  */
+#line 446 "bison_parser.y"
+                                       {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3396 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3558 "bison_parser.cpp"
     break;
 
-  case 34:
-#line 450 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
+#line 450 "bison_parser.y"
+                                                       {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3406 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3568 "bison_parser.cpp"
     break;
 
-  case 35:
-#line 462 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
+#line 462 "bison_parser.y"
+                                                                        {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3417 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3579 "bison_parser.cpp"
     break;
 
-  case 36:
-#line 468 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
+#line 468 "bison_parser.y"
+                                                                     {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[-4].table_name).schema;
@@ -3434,12 +3596,12 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3438 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3600 "bison_parser.cpp"
     break;
 
-  case 37:
-#line 485 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 37: /* file_type: IDENTIFIER  */
+#line 485 "bison_parser.y"
+                       {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
   } else if (strcasecmp((yyvsp[0].sval), "tbl") == 0) {
@@ -3453,36 +3615,36 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3457 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3619 "bison_parser.cpp"
     break;
 
-  case 38:
-#line 500 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3463 "bison_parser.cpp" /* yacc.c:1646  */
+  case 38: /* file_path: STRING  */
+#line 500 "bison_parser.y"
+                   { (yyval.sval) = (yyvsp[0].sval); }
+#line 3625 "bison_parser.cpp"
     break;
 
-  case 39:
-#line 502 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3469 "bison_parser.cpp" /* yacc.c:1646  */
+  case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
+#line 502 "bison_parser.y"
+                                                               { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
+#line 3631 "bison_parser.cpp"
     break;
 
-  case 40:
-#line 503 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3475 "bison_parser.cpp" /* yacc.c:1646  */
+  case 40: /* opt_import_export_options: '(' import_export_options ')'  */
+#line 503 "bison_parser.y"
+                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
+#line 3637 "bison_parser.cpp"
     break;
 
-  case 41:
-#line 504 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3481 "bison_parser.cpp" /* yacc.c:1646  */
+  case 41: /* opt_import_export_options: %empty  */
+#line 504 "bison_parser.y"
+              { (yyval.import_export_option_t) = new ImportExportOptions{}; }
+#line 3643 "bison_parser.cpp"
     break;
 
-  case 42:
-#line 506 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
+#line 506 "bison_parser.y"
+                                                                   {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
     yyerror(&yyloc, result, scanner, "File type must only be provided once.");
@@ -3496,21 +3658,21 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3500 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3662 "bison_parser.cpp"
     break;
 
-  case 43:
-#line 520 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 43: /* import_export_options: FORMAT file_type  */
+#line 520 "bison_parser.y"
+                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3509 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3671 "bison_parser.cpp"
     break;
 
-  case 44:
-#line 524 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
+#line 524 "bison_parser.y"
+                                            {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
     free((yyvsp[0].sval));
@@ -3520,21 +3682,21 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3524 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3686 "bison_parser.cpp"
     break;
 
-  case 45:
-#line 534 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 45: /* import_export_options: ENCODING STRING  */
+#line 534 "bison_parser.y"
+                  {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3533 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3695 "bison_parser.cpp"
     break;
 
-  case 46:
-#line 538 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 46: /* import_export_options: import_export_options ',' csv_option  */
+#line 538 "bison_parser.y"
+                                       {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
     free((yyvsp[0].csv_option_t)->second);
@@ -3558,24 +3720,24 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3562 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3724 "bison_parser.cpp"
     break;
 
-  case 47:
-#line 562 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 47: /* import_export_options: csv_option  */
+#line 562 "bison_parser.y"
+             {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
   (yyval.import_export_option_t)->csv_options->accept_csv_option((yyvsp[0].csv_option_t));
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3574 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3736 "bison_parser.cpp"
     break;
 
-  case 48:
-#line 570 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 48: /* csv_option: IDENTIFIER STRING  */
+#line 570 "bison_parser.y"
+                               {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
   } else if (strcasecmp((yyvsp[-1].sval), "QUOTE") == 0) {
@@ -3588,18 +3750,18 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3592 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3754 "bison_parser.cpp"
     break;
 
-  case 49:
-#line 583 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3598 "bison_parser.cpp" /* yacc.c:1646  */
+  case 49: /* csv_option: NULL STRING  */
+#line 583 "bison_parser.y"
+              { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
+#line 3760 "bison_parser.cpp"
     break;
 
-  case 50:
-#line 590 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
+#line 590 "bison_parser.y"
+                                                                          {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
   (yyval.export_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3614,12 +3776,12 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3618 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3780 "bison_parser.cpp"
     break;
 
-  case 51:
-#line 605 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
+#line 605 "bison_parser.y"
+                                                                {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
   (yyval.export_stmt)->select = (yyvsp[-3].select_stmt);
@@ -3633,38 +3795,38 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3637 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3799 "bison_parser.cpp"
     break;
 
-  case 52:
-#line 625 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3643 "bison_parser.cpp" /* yacc.c:1646  */
+  case 52: /* show_statement: SHOW TABLES  */
+#line 625 "bison_parser.y"
+                             { (yyval.show_stmt) = new ShowStatement(kShowTables); }
+#line 3805 "bison_parser.cpp"
     break;
 
-  case 53:
-#line 626 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 53: /* show_statement: SHOW COLUMNS table_name  */
+#line 626 "bison_parser.y"
+                          {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3653 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3815 "bison_parser.cpp"
     break;
 
-  case 54:
-#line 631 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 54: /* show_statement: DESCRIBE table_name  */
+#line 631 "bison_parser.y"
+                      {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3663 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3825 "bison_parser.cpp"
     break;
 
-  case 55:
-#line 642 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
+#line 642 "bison_parser.y"
+                                                                                         {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
   (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
@@ -3677,12 +3839,12 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3681 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3843 "bison_parser.cpp"
     break;
 
-  case 56:
-#line 655 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
+#line 655 "bison_parser.y"
+                                                                      {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
   (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3694,36 +3856,36 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3698 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3860 "bison_parser.cpp"
     break;
 
-  case 57:
-#line 667 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
+#line 667 "bison_parser.y"
+                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
   (yyval.create_stmt)->schema = (yyvsp[-2].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3710 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3872 "bison_parser.cpp"
     break;
 
-  case 58:
-#line 674 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
+#line 674 "bison_parser.y"
+                                                                                   {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-6].bval);
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3722 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3884 "bison_parser.cpp"
     break;
 
-  case 59:
-#line 681 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
+#line 681 "bison_parser.y"
+                                                                            {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
   (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
@@ -3731,500 +3893,500 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3735 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3897 "bison_parser.cpp"
     break;
 
-  case 60:
-#line 690 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 3741 "bison_parser.cpp" /* yacc.c:1646  */
+  case 60: /* opt_not_exists: IF NOT EXISTS  */
+#line 690 "bison_parser.y"
+                               { (yyval.bval) = true; }
+#line 3903 "bison_parser.cpp"
     break;
 
-  case 61:
-#line 691 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 3747 "bison_parser.cpp" /* yacc.c:1646  */
+  case 61: /* opt_not_exists: %empty  */
+#line 691 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 3909 "bison_parser.cpp"
     break;
 
-  case 62:
-#line 693 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 62: /* table_elem_commalist: table_elem  */
+#line 693 "bison_parser.y"
+                                  {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3756 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3918 "bison_parser.cpp"
     break;
 
-  case 63:
-#line 697 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
+#line 697 "bison_parser.y"
+                                      {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3765 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3927 "bison_parser.cpp"
     break;
 
-  case 64:
-#line 702 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3771 "bison_parser.cpp" /* yacc.c:1646  */
+  case 64: /* table_elem: column_def  */
+#line 702 "bison_parser.y"
+                        { (yyval.table_element_t) = (yyvsp[0].column_t); }
+#line 3933 "bison_parser.cpp"
     break;
 
-  case 65:
-#line 703 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3777 "bison_parser.cpp" /* yacc.c:1646  */
+  case 65: /* table_elem: table_constraint  */
+#line 703 "bison_parser.y"
+                   { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
+#line 3939 "bison_parser.cpp"
     break;
 
-  case 66:
-#line 705 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
+#line 705 "bison_parser.y"
+                                                           {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
     yyerror(&yyloc, result, scanner, ("Conflicting nullability constraints for " + std::string{(yyvsp[-2].sval)}).c_str());
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 3789 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3951 "bison_parser.cpp"
     break;
 
-  case 67:
-#line 713 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3795 "bison_parser.cpp" /* yacc.c:1646  */
+  case 67: /* column_type: BIGINT  */
+#line 713 "bison_parser.y"
+                     { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
+#line 3957 "bison_parser.cpp"
     break;
 
-  case 68:
-#line 714 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 3801 "bison_parser.cpp" /* yacc.c:1646  */
+  case 68: /* column_type: BOOLEAN  */
+#line 714 "bison_parser.y"
+          { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
+#line 3963 "bison_parser.cpp"
     break;
 
-  case 69:
-#line 715 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 3807 "bison_parser.cpp" /* yacc.c:1646  */
+  case 69: /* column_type: CHAR '(' INTVAL ')'  */
+#line 715 "bison_parser.y"
+                      { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
+#line 3969 "bison_parser.cpp"
     break;
 
-  case 70:
-#line 716 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3813 "bison_parser.cpp" /* yacc.c:1646  */
+  case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
+#line 716 "bison_parser.y"
+                                   { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
+#line 3975 "bison_parser.cpp"
     break;
 
-  case 71:
-#line 717 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 3819 "bison_parser.cpp" /* yacc.c:1646  */
+  case 71: /* column_type: DATE  */
+#line 717 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
+#line 3981 "bison_parser.cpp"
     break;
 
-  case 72:
-#line 718 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3825 "bison_parser.cpp" /* yacc.c:1646  */
+  case 72: /* column_type: DATETIME  */
+#line 718 "bison_parser.y"
+           { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
+#line 3987 "bison_parser.cpp"
     break;
 
-  case 73:
-#line 719 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 73: /* column_type: DECIMAL opt_decimal_specification  */
+#line 719 "bison_parser.y"
+                                    {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 3834 "bison_parser.cpp" /* yacc.c:1646  */
+#line 3996 "bison_parser.cpp"
     break;
 
-  case 74:
-#line 723 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 3840 "bison_parser.cpp" /* yacc.c:1646  */
+  case 74: /* column_type: DOUBLE  */
+#line 723 "bison_parser.y"
+         { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
+#line 4002 "bison_parser.cpp"
     break;
 
-  case 75:
-#line 724 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 3846 "bison_parser.cpp" /* yacc.c:1646  */
+  case 75: /* column_type: FLOAT  */
+#line 724 "bison_parser.y"
+        { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
+#line 4008 "bison_parser.cpp"
     break;
 
-  case 76:
-#line 725 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 3852 "bison_parser.cpp" /* yacc.c:1646  */
+  case 76: /* column_type: INT  */
+#line 725 "bison_parser.y"
+      { (yyval.column_type_t) = ColumnType{DataType::INT}; }
+#line 4014 "bison_parser.cpp"
     break;
 
-  case 77:
-#line 726 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 3858 "bison_parser.cpp" /* yacc.c:1646  */
+  case 77: /* column_type: INTEGER  */
+#line 726 "bison_parser.y"
+          { (yyval.column_type_t) = ColumnType{DataType::INT}; }
+#line 4020 "bison_parser.cpp"
     break;
 
-  case 78:
-#line 727 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 3864 "bison_parser.cpp" /* yacc.c:1646  */
+  case 78: /* column_type: LONG  */
+#line 727 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
+#line 4026 "bison_parser.cpp"
     break;
 
-  case 79:
-#line 728 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 3870 "bison_parser.cpp" /* yacc.c:1646  */
+  case 79: /* column_type: REAL  */
+#line 728 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
+#line 4032 "bison_parser.cpp"
     break;
 
-  case 80:
-#line 729 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 3876 "bison_parser.cpp" /* yacc.c:1646  */
+  case 80: /* column_type: SMALLINT  */
+#line 729 "bison_parser.y"
+           { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
+#line 4038 "bison_parser.cpp"
     break;
 
-  case 81:
-#line 730 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 3882 "bison_parser.cpp" /* yacc.c:1646  */
+  case 81: /* column_type: TEXT  */
+#line 730 "bison_parser.y"
+       { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
+#line 4044 "bison_parser.cpp"
     break;
 
-  case 82:
-#line 731 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 3888 "bison_parser.cpp" /* yacc.c:1646  */
+  case 82: /* column_type: TIME opt_time_precision  */
+#line 731 "bison_parser.y"
+                          { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
+#line 4050 "bison_parser.cpp"
     break;
 
-  case 83:
-#line 732 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3894 "bison_parser.cpp" /* yacc.c:1646  */
+  case 83: /* column_type: TIMESTAMP  */
+#line 732 "bison_parser.y"
+            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
+#line 4056 "bison_parser.cpp"
     break;
 
-  case 84:
-#line 733 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3900 "bison_parser.cpp" /* yacc.c:1646  */
+  case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
+#line 733 "bison_parser.y"
+                         { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
+#line 4062 "bison_parser.cpp"
     break;
 
-  case 85:
-#line 735 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival) = (yyvsp[-1].ival); }
-#line 3906 "bison_parser.cpp" /* yacc.c:1646  */
+  case 85: /* opt_time_precision: '(' INTVAL ')'  */
+#line 735 "bison_parser.y"
+                                    { (yyval.ival) = (yyvsp[-1].ival); }
+#line 4068 "bison_parser.cpp"
     break;
 
-  case 86:
-#line 736 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival) = 0; }
-#line 3912 "bison_parser.cpp" /* yacc.c:1646  */
+  case 86: /* opt_time_precision: %empty  */
+#line 736 "bison_parser.y"
+              { (yyval.ival) = 0; }
+#line 4074 "bison_parser.cpp"
     break;
 
-  case 87:
-#line 738 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 3918 "bison_parser.cpp" /* yacc.c:1646  */
+  case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
+#line 738 "bison_parser.y"
+                                                      { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
+#line 4080 "bison_parser.cpp"
     break;
 
-  case 88:
-#line 739 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 3924 "bison_parser.cpp" /* yacc.c:1646  */
+  case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
+#line 739 "bison_parser.y"
+                 { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
+#line 4086 "bison_parser.cpp"
     break;
 
-  case 89:
-#line 740 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 3930 "bison_parser.cpp" /* yacc.c:1646  */
+  case 89: /* opt_decimal_specification: %empty  */
+#line 740 "bison_parser.y"
+              { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
+#line 4092 "bison_parser.cpp"
     break;
 
-  case 90:
-#line 742 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 3936 "bison_parser.cpp" /* yacc.c:1646  */
+  case 90: /* opt_column_constraints: column_constraints  */
+#line 742 "bison_parser.y"
+                                            { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
+#line 4098 "bison_parser.cpp"
     break;
 
-  case 91:
-#line 743 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 3942 "bison_parser.cpp" /* yacc.c:1646  */
+  case 91: /* opt_column_constraints: %empty  */
+#line 743 "bison_parser.y"
+              { (yyval.column_constraints_t) = new ColumnConstraints(); }
+#line 4104 "bison_parser.cpp"
     break;
 
-  case 92:
-#line 745 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 92: /* column_constraints: column_constraint  */
+#line 745 "bison_parser.y"
+                                       {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 3951 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4113 "bison_parser.cpp"
     break;
 
-  case 93:
-#line 749 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 93: /* column_constraints: column_constraints column_constraint  */
+#line 749 "bison_parser.y"
+                                       {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 3960 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4122 "bison_parser.cpp"
     break;
 
-  case 94:
-#line 753 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 94: /* column_constraints: references_spec  */
+#line 753 "bison_parser.y"
+                  {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 3970 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4132 "bison_parser.cpp"
     break;
 
-  case 95:
-#line 758 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 95: /* column_constraints: column_constraints references_spec  */
+#line 758 "bison_parser.y"
+                                     {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
   (yyvsp[-1].column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 3982 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4144 "bison_parser.cpp"
     break;
 
-  case 96:
-#line 766 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 3988 "bison_parser.cpp" /* yacc.c:1646  */
+  case 96: /* column_constraint: PRIMARY KEY  */
+#line 766 "bison_parser.y"
+                                { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
+#line 4150 "bison_parser.cpp"
     break;
 
-  case 97:
-#line 767 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 3994 "bison_parser.cpp" /* yacc.c:1646  */
+  case 97: /* column_constraint: UNIQUE  */
+#line 767 "bison_parser.y"
+         { (yyval.column_constraint_t) = ConstraintType::Unique; }
+#line 4156 "bison_parser.cpp"
     break;
 
-  case 98:
-#line 768 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4000 "bison_parser.cpp" /* yacc.c:1646  */
+  case 98: /* column_constraint: NULL  */
+#line 768 "bison_parser.y"
+       { (yyval.column_constraint_t) = ConstraintType::Null; }
+#line 4162 "bison_parser.cpp"
     break;
 
-  case 99:
-#line 769 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4006 "bison_parser.cpp" /* yacc.c:1646  */
+  case 99: /* column_constraint: NOT NULL  */
+#line 769 "bison_parser.y"
+           { (yyval.column_constraint_t) = ConstraintType::NotNull; }
+#line 4168 "bison_parser.cpp"
     break;
 
-  case 100:
-#line 771 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4012 "bison_parser.cpp" /* yacc.c:1646  */
+  case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
+#line 771 "bison_parser.y"
+                                                       { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
+#line 4174 "bison_parser.cpp"
     break;
 
-  case 101:
-#line 772 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4018 "bison_parser.cpp" /* yacc.c:1646  */
+  case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
+#line 772 "bison_parser.y"
+                                 { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
+#line 4180 "bison_parser.cpp"
     break;
 
-  case 102:
-#line 773 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4024 "bison_parser.cpp" /* yacc.c:1646  */
+  case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
+#line 773 "bison_parser.y"
+                                                      { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
+#line 4186 "bison_parser.cpp"
     break;
 
-  case 103:
-#line 775 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4030 "bison_parser.cpp" /* yacc.c:1646  */
+  case 103: /* references_spec: REFERENCES table_name opt_column_list  */
+#line 775 "bison_parser.y"
+                                                        { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
+#line 4192 "bison_parser.cpp"
     break;
 
-  case 104:
-#line 783 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
+#line 783 "bison_parser.y"
+                                                  {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4041 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4203 "bison_parser.cpp"
     break;
 
-  case 105:
-#line 789 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
+#line 789 "bison_parser.y"
+                                  {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4052 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4214 "bison_parser.cpp"
     break;
 
-  case 106:
-#line 795 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
+#line 795 "bison_parser.y"
+                                {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4062 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4224 "bison_parser.cpp"
     break;
 
-  case 107:
-#line 801 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
+#line 801 "bison_parser.y"
+                                   {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4072 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4234 "bison_parser.cpp"
     break;
 
-  case 108:
-#line 807 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4078 "bison_parser.cpp" /* yacc.c:1646  */
+  case 108: /* opt_exists: IF EXISTS  */
+#line 807 "bison_parser.y"
+                       { (yyval.bval) = true; }
+#line 4240 "bison_parser.cpp"
     break;
 
-  case 109:
-#line 808 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4084 "bison_parser.cpp" /* yacc.c:1646  */
+  case 109: /* opt_exists: %empty  */
+#line 808 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 4246 "bison_parser.cpp"
     break;
 
-  case 110:
-#line 815 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
+#line 815 "bison_parser.y"
+                                                                 {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4094 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4256 "bison_parser.cpp"
     break;
 
-  case 111:
-#line 821 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4100 "bison_parser.cpp" /* yacc.c:1646  */
+  case 111: /* alter_action: drop_action  */
+#line 821 "bison_parser.y"
+                           { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
+#line 4262 "bison_parser.cpp"
     break;
 
-  case 112:
-#line 823 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
+#line 823 "bison_parser.y"
+                                                {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4109 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4271 "bison_parser.cpp"
     break;
 
-  case 113:
-#line 833 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 113: /* delete_statement: DELETE FROM table_name opt_where  */
+#line 833 "bison_parser.y"
+                                                    {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4120 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4282 "bison_parser.cpp"
     break;
 
-  case 114:
-#line 840 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 114: /* truncate_statement: TRUNCATE table_name  */
+#line 840 "bison_parser.y"
+                                         {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4130 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4292 "bison_parser.cpp"
     break;
 
-  case 115:
-#line 851 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
+#line 851 "bison_parser.y"
+                                                                                               {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
   (yyval.insert_stmt)->tableName = (yyvsp[-5].table_name).name;
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4142 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4304 "bison_parser.cpp"
     break;
 
-  case 116:
-#line 858 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
+#line 858 "bison_parser.y"
+                                                         {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
   (yyval.insert_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4154 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4316 "bison_parser.cpp"
     break;
 
-  case 117:
-#line 866 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4160 "bison_parser.cpp" /* yacc.c:1646  */
+  case 117: /* opt_column_list: '(' ident_commalist ')'  */
+#line 866 "bison_parser.y"
+                                          { (yyval.str_vec) = (yyvsp[-1].str_vec); }
+#line 4322 "bison_parser.cpp"
     break;
 
-  case 118:
-#line 867 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.str_vec) = nullptr; }
-#line 4166 "bison_parser.cpp" /* yacc.c:1646  */
+  case 118: /* opt_column_list: %empty  */
+#line 867 "bison_parser.y"
+              { (yyval.str_vec) = nullptr; }
+#line 4328 "bison_parser.cpp"
     break;
 
-  case 119:
-#line 874 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
+#line 874 "bison_parser.y"
+                                                                                        {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4177 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4339 "bison_parser.cpp"
     break;
 
-  case 120:
-#line 881 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 120: /* update_clause_commalist: update_clause  */
+#line 881 "bison_parser.y"
+                                        {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4186 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4348 "bison_parser.cpp"
     break;
 
-  case 121:
-#line 885 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
+#line 885 "bison_parser.y"
+                                            {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4195 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4357 "bison_parser.cpp"
     break;
 
-  case 122:
-#line 890 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 122: /* update_clause: IDENTIFIER '=' expr  */
+#line 890 "bison_parser.y"
+                                    {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4205 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4367 "bison_parser.cpp"
     break;
 
-  case 123:
-#line 900 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 123: /* select_statement: opt_with_clause select_with_paren  */
+#line 900 "bison_parser.y"
+                                                     {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4214 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4376 "bison_parser.cpp"
     break;
 
-  case 124:
-#line 904 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 124: /* select_statement: opt_with_clause select_no_paren  */
+#line 904 "bison_parser.y"
+                                  {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4223 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4385 "bison_parser.cpp"
     break;
 
-  case 125:
-#line 908 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
+#line 908 "bison_parser.y"
+                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4235,18 +4397,18 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4239 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4401 "bison_parser.cpp"
     break;
 
-  case 128:
-#line 922 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4245 "bison_parser.cpp" /* yacc.c:1646  */
+  case 128: /* select_within_set_operation_no_parentheses: select_clause  */
+#line 922 "bison_parser.y"
+                                                           { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
+#line 4407 "bison_parser.cpp"
     break;
 
-  case 129:
-#line 923 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
+#line 923 "bison_parser.y"
+                                                         {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4254,24 +4416,24 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4258 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4420 "bison_parser.cpp"
     break;
 
-  case 130:
-#line 932 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4264 "bison_parser.cpp" /* yacc.c:1646  */
+  case 130: /* select_with_paren: '(' select_no_paren ')'  */
+#line 932 "bison_parser.y"
+                                            { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
+#line 4426 "bison_parser.cpp"
     break;
 
-  case 131:
-#line 933 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4270 "bison_parser.cpp" /* yacc.c:1646  */
+  case 131: /* select_with_paren: '(' select_with_paren ')'  */
+#line 933 "bison_parser.y"
+                            { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
+#line 4432 "bison_parser.cpp"
     break;
 
-  case 132:
-#line 935 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
+#line 935 "bison_parser.y"
+                                                                       {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
 
@@ -4285,12 +4447,12 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4289 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4451 "bison_parser.cpp"
     break;
 
-  case 133:
-#line 949 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
+#line 949 "bison_parser.y"
+                                                                                                {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
     (yyval.select_stmt)->setOperations = new std::vector<SetOperation*>();
@@ -4301,60 +4463,60 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4305 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4467 "bison_parser.cpp"
     break;
 
-  case 134:
-#line 961 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 134: /* set_operator: set_type opt_all  */
+#line 961 "bison_parser.y"
+                                {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4314 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4476 "bison_parser.cpp"
     break;
 
-  case 135:
-#line 966 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 135: /* set_type: UNION  */
+#line 966 "bison_parser.y"
+                 {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4323 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4485 "bison_parser.cpp"
     break;
 
-  case 136:
-#line 970 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 136: /* set_type: INTERSECT  */
+#line 970 "bison_parser.y"
+            {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4332 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4494 "bison_parser.cpp"
     break;
 
-  case 137:
-#line 974 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 137: /* set_type: EXCEPT  */
+#line 974 "bison_parser.y"
+         {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4341 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4503 "bison_parser.cpp"
     break;
 
-  case 138:
-#line 979 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4347 "bison_parser.cpp" /* yacc.c:1646  */
+  case 138: /* opt_all: ALL  */
+#line 979 "bison_parser.y"
+              { (yyval.bval) = true; }
+#line 4509 "bison_parser.cpp"
     break;
 
-  case 139:
-#line 980 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4353 "bison_parser.cpp" /* yacc.c:1646  */
+  case 139: /* opt_all: %empty  */
+#line 980 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 4515 "bison_parser.cpp"
     break;
 
-  case 140:
-#line 982 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
+#line 982 "bison_parser.y"
+                                                                                            {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
   (yyval.select_stmt)->selectDistinct = (yyvsp[-4].bval);
@@ -4363,142 +4525,142 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4367 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4529 "bison_parser.cpp"
     break;
 
-  case 141:
-#line 992 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = true; }
-#line 4373 "bison_parser.cpp" /* yacc.c:1646  */
+  case 141: /* opt_distinct: DISTINCT  */
+#line 992 "bison_parser.y"
+                        { (yyval.bval) = true; }
+#line 4535 "bison_parser.cpp"
     break;
 
-  case 142:
-#line 993 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.bval) = false; }
-#line 4379 "bison_parser.cpp" /* yacc.c:1646  */
+  case 142: /* opt_distinct: %empty  */
+#line 993 "bison_parser.y"
+              { (yyval.bval) = false; }
+#line 4541 "bison_parser.cpp"
     break;
 
-  case 144:
-#line 997 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = (yyvsp[0].table); }
-#line 4385 "bison_parser.cpp" /* yacc.c:1646  */
+  case 144: /* opt_from_clause: from_clause  */
+#line 997 "bison_parser.y"
+                              { (yyval.table) = (yyvsp[0].table); }
+#line 4547 "bison_parser.cpp"
     break;
 
-  case 145:
-#line 998 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = nullptr; }
-#line 4391 "bison_parser.cpp" /* yacc.c:1646  */
+  case 145: /* opt_from_clause: %empty  */
+#line 998 "bison_parser.y"
+              { (yyval.table) = nullptr; }
+#line 4553 "bison_parser.cpp"
     break;
 
-  case 146:
-#line 1000 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.table) = (yyvsp[0].table); }
-#line 4397 "bison_parser.cpp" /* yacc.c:1646  */
+  case 146: /* from_clause: FROM table_ref  */
+#line 1000 "bison_parser.y"
+                             { (yyval.table) = (yyvsp[0].table); }
+#line 4559 "bison_parser.cpp"
     break;
 
-  case 147:
-#line 1002 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[0].expr); }
-#line 4403 "bison_parser.cpp" /* yacc.c:1646  */
+  case 147: /* opt_where: WHERE expr  */
+#line 1002 "bison_parser.y"
+                       { (yyval.expr) = (yyvsp[0].expr); }
+#line 4565 "bison_parser.cpp"
     break;
 
-  case 148:
-#line 1003 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = nullptr; }
-#line 4409 "bison_parser.cpp" /* yacc.c:1646  */
+  case 148: /* opt_where: %empty  */
+#line 1003 "bison_parser.y"
+              { (yyval.expr) = nullptr; }
+#line 4571 "bison_parser.cpp"
     break;
 
-  case 149:
-#line 1005 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 149: /* opt_group: GROUP BY expr_list opt_having  */
+#line 1005 "bison_parser.y"
+                                          {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4419 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4581 "bison_parser.cpp"
     break;
 
-  case 150:
-#line 1010 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.group_t) = nullptr; }
-#line 4425 "bison_parser.cpp" /* yacc.c:1646  */
+  case 150: /* opt_group: %empty  */
+#line 1010 "bison_parser.y"
+              { (yyval.group_t) = nullptr; }
+#line 4587 "bison_parser.cpp"
     break;
 
-  case 151:
-#line 1012 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[0].expr); }
-#line 4431 "bison_parser.cpp" /* yacc.c:1646  */
+  case 151: /* opt_having: HAVING expr  */
+#line 1012 "bison_parser.y"
+                         { (yyval.expr) = (yyvsp[0].expr); }
+#line 4593 "bison_parser.cpp"
     break;
 
-  case 152:
-#line 1013 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = nullptr; }
-#line 4437 "bison_parser.cpp" /* yacc.c:1646  */
+  case 152: /* opt_having: %empty  */
+#line 1013 "bison_parser.y"
+              { (yyval.expr) = nullptr; }
+#line 4599 "bison_parser.cpp"
     break;
 
-  case 153:
-#line 1015 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4443 "bison_parser.cpp" /* yacc.c:1646  */
+  case 153: /* opt_order: ORDER BY order_list  */
+#line 1015 "bison_parser.y"
+                                { (yyval.order_vec) = (yyvsp[0].order_vec); }
+#line 4605 "bison_parser.cpp"
     break;
 
-  case 154:
-#line 1016 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_vec) = nullptr; }
-#line 4449 "bison_parser.cpp" /* yacc.c:1646  */
+  case 154: /* opt_order: %empty  */
+#line 1016 "bison_parser.y"
+              { (yyval.order_vec) = nullptr; }
+#line 4611 "bison_parser.cpp"
     break;
 
-  case 155:
-#line 1018 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 155: /* order_list: order_desc  */
+#line 1018 "bison_parser.y"
+                        {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4458 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4620 "bison_parser.cpp"
     break;
 
-  case 156:
-#line 1022 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 156: /* order_list: order_list ',' order_desc  */
+#line 1022 "bison_parser.y"
+                            {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4467 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4629 "bison_parser.cpp"
     break;
 
-  case 157:
-#line 1027 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4473 "bison_parser.cpp" /* yacc.c:1646  */
+  case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
+#line 1027 "bison_parser.y"
+                                                   { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
+#line 4635 "bison_parser.cpp"
     break;
 
-  case 158:
-#line 1029 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderAsc; }
-#line 4479 "bison_parser.cpp" /* yacc.c:1646  */
+  case 158: /* opt_order_type: ASC  */
+#line 1029 "bison_parser.y"
+                     { (yyval.order_type) = kOrderAsc; }
+#line 4641 "bison_parser.cpp"
     break;
 
-  case 159:
-#line 1030 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderDesc; }
-#line 4485 "bison_parser.cpp" /* yacc.c:1646  */
+  case 159: /* opt_order_type: DESC  */
+#line 1030 "bison_parser.y"
+       { (yyval.order_type) = kOrderDesc; }
+#line 4647 "bison_parser.cpp"
     break;
 
-  case 160:
-#line 1031 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.order_type) = kOrderAsc; }
-#line 4491 "bison_parser.cpp" /* yacc.c:1646  */
+  case 160: /* opt_order_type: %empty  */
+#line 1031 "bison_parser.y"
+              { (yyval.order_type) = kOrderAsc; }
+#line 4653 "bison_parser.cpp"
     break;
 
-  case 161:
-#line 1033 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4497 "bison_parser.cpp" /* yacc.c:1646  */
+  case 161: /* opt_null_ordering: %empty  */
+#line 1033 "bison_parser.y"
+                                { (yyval.null_ordering_t) = NullOrdering::Undefined; }
+#line 4659 "bison_parser.cpp"
     break;
 
-  case 162:
-#line 1034 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
+#line 1034 "bison_parser.y"
+                        {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
     if (strcasecmp((yyvsp[0].sval), "first") == 0) {
@@ -4517,116 +4679,116 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4521 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4683 "bison_parser.cpp"
     break;
 
-  case 163:
-#line 1056 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4527 "bison_parser.cpp" /* yacc.c:1646  */
+  case 163: /* opt_top: TOP int_literal  */
+#line 1056 "bison_parser.y"
+                          { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
+#line 4689 "bison_parser.cpp"
     break;
 
-  case 164:
-#line 1057 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = nullptr; }
-#line 4533 "bison_parser.cpp" /* yacc.c:1646  */
+  case 164: /* opt_top: %empty  */
+#line 1057 "bison_parser.y"
+              { (yyval.limit) = nullptr; }
+#line 4695 "bison_parser.cpp"
     break;
 
-  case 165:
-#line 1059 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4539 "bison_parser.cpp" /* yacc.c:1646  */
+  case 165: /* opt_limit: LIMIT expr  */
+#line 1059 "bison_parser.y"
+                       { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
+#line 4701 "bison_parser.cpp"
     break;
 
-  case 166:
-#line 1060 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4545 "bison_parser.cpp" /* yacc.c:1646  */
+  case 166: /* opt_limit: OFFSET expr  */
+#line 1060 "bison_parser.y"
+              { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
+#line 4707 "bison_parser.cpp"
     break;
 
-  case 167:
-#line 1061 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4551 "bison_parser.cpp" /* yacc.c:1646  */
+  case 167: /* opt_limit: LIMIT expr OFFSET expr  */
+#line 1061 "bison_parser.y"
+                         { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
+#line 4713 "bison_parser.cpp"
     break;
 
-  case 168:
-#line 1062 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4557 "bison_parser.cpp" /* yacc.c:1646  */
+  case 168: /* opt_limit: LIMIT ALL  */
+#line 1062 "bison_parser.y"
+            { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
+#line 4719 "bison_parser.cpp"
     break;
 
-  case 169:
-#line 1063 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4563 "bison_parser.cpp" /* yacc.c:1646  */
+  case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
+#line 1063 "bison_parser.y"
+                        { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
+#line 4725 "bison_parser.cpp"
     break;
 
-  case 170:
-#line 1064 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.limit) = nullptr; }
-#line 4569 "bison_parser.cpp" /* yacc.c:1646  */
+  case 170: /* opt_limit: %empty  */
+#line 1064 "bison_parser.y"
+              { (yyval.limit) = nullptr; }
+#line 4731 "bison_parser.cpp"
     break;
 
-  case 171:
-#line 1069 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 171: /* expr_list: expr_alias  */
+#line 1069 "bison_parser.y"
+                       {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4578 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4740 "bison_parser.cpp"
     break;
 
-  case 172:
-#line 1073 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 172: /* expr_list: expr_list ',' expr_alias  */
+#line 1073 "bison_parser.y"
+                           {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4587 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4749 "bison_parser.cpp"
     break;
 
-  case 173:
-#line 1079 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4593 "bison_parser.cpp" /* yacc.c:1646  */
+  case 173: /* opt_extended_literal_list: extended_literal_list  */
+#line 1079 "bison_parser.y"
+                                                  { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
+#line 4755 "bison_parser.cpp"
     break;
 
-  case 174:
-#line 1080 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 4599 "bison_parser.cpp" /* yacc.c:1646  */
+  case 174: /* opt_extended_literal_list: %empty  */
+#line 1080 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 4761 "bison_parser.cpp"
     break;
 
-  case 175:
-#line 1082 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 175: /* extended_literal_list: casted_extended_literal  */
+#line 1082 "bison_parser.y"
+                                                {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4608 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4770 "bison_parser.cpp"
     break;
 
-  case 176:
-#line 1086 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
+#line 1086 "bison_parser.y"
+                                                    {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4617 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4779 "bison_parser.cpp"
     break;
 
-  case 178:
-#line 1091 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
+#line 1091 "bison_parser.y"
+                                                                                          {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4625 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4787 "bison_parser.cpp"
     break;
 
-  case 179:
-#line 1095 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 179: /* extended_literal: literal  */
+#line 1095 "bison_parser.y"
+                           {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
     yyerror(&yyloc, result, scanner, "Parameter ? is not a valid literal.");
@@ -4634,24 +4796,24 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4638 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4800 "bison_parser.cpp"
     break;
 
-  case 180:
-#line 1103 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4644 "bison_parser.cpp" /* yacc.c:1646  */
+  case 180: /* extended_literal: '-' num_literal  */
+#line 1103 "bison_parser.y"
+                  { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 4806 "bison_parser.cpp"
     break;
 
-  case 181:
-#line 1104 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4650 "bison_parser.cpp" /* yacc.c:1646  */
+  case 181: /* extended_literal: '-' interval_literal  */
+#line 1104 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 4812 "bison_parser.cpp"
     break;
 
-  case 182:
-#line 1106 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 182: /* expr_alias: expr opt_alias  */
+#line 1106 "bison_parser.y"
+                            {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
     (yyval.expr)->alias = (yyvsp[0].alias_t)->name;
@@ -4659,520 +4821,520 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4663 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4825 "bison_parser.cpp"
     break;
 
-  case 188:
-#line 1117 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4669 "bison_parser.cpp" /* yacc.c:1646  */
+  case 188: /* operand: '(' expr ')'  */
+#line 1117 "bison_parser.y"
+                       { (yyval.expr) = (yyvsp[-1].expr); }
+#line 4831 "bison_parser.cpp"
     break;
 
-  case 198:
-#line 1119 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 198: /* operand: '(' select_no_paren ')'  */
+#line 1119 "bison_parser.y"
+                                         {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4677 "bison_parser.cpp" /* yacc.c:1646  */
+#line 4839 "bison_parser.cpp"
     break;
 
-  case 201:
-#line 1125 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4683 "bison_parser.cpp" /* yacc.c:1646  */
+  case 201: /* unary_expr: '-' operand  */
+#line 1125 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
+#line 4845 "bison_parser.cpp"
     break;
 
-  case 202:
-#line 1126 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4689 "bison_parser.cpp" /* yacc.c:1646  */
+  case 202: /* unary_expr: NOT operand  */
+#line 1126 "bison_parser.y"
+              { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 4851 "bison_parser.cpp"
     break;
 
-  case 203:
-#line 1127 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4695 "bison_parser.cpp" /* yacc.c:1646  */
+  case 203: /* unary_expr: operand ISNULL  */
+#line 1127 "bison_parser.y"
+                 { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
+#line 4857 "bison_parser.cpp"
     break;
 
-  case 204:
-#line 1128 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4701 "bison_parser.cpp" /* yacc.c:1646  */
+  case 204: /* unary_expr: operand IS NULL  */
+#line 1128 "bison_parser.y"
+                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
+#line 4863 "bison_parser.cpp"
     break;
 
-  case 205:
-#line 1129 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4707 "bison_parser.cpp" /* yacc.c:1646  */
+  case 205: /* unary_expr: operand IS NOT NULL  */
+#line 1129 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
+#line 4869 "bison_parser.cpp"
     break;
 
-  case 207:
-#line 1131 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4713 "bison_parser.cpp" /* yacc.c:1646  */
+  case 207: /* binary_expr: operand '-' operand  */
+#line 1131 "bison_parser.y"
+                                              { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
+#line 4875 "bison_parser.cpp"
     break;
 
-  case 208:
-#line 1132 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4719 "bison_parser.cpp" /* yacc.c:1646  */
+  case 208: /* binary_expr: operand '+' operand  */
+#line 1132 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
+#line 4881 "bison_parser.cpp"
     break;
 
-  case 209:
-#line 1133 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4725 "bison_parser.cpp" /* yacc.c:1646  */
+  case 209: /* binary_expr: operand '/' operand  */
+#line 1133 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
+#line 4887 "bison_parser.cpp"
     break;
 
-  case 210:
-#line 1134 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4731 "bison_parser.cpp" /* yacc.c:1646  */
+  case 210: /* binary_expr: operand '*' operand  */
+#line 1134 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
+#line 4893 "bison_parser.cpp"
     break;
 
-  case 211:
-#line 1135 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4737 "bison_parser.cpp" /* yacc.c:1646  */
+  case 211: /* binary_expr: operand '%' operand  */
+#line 1135 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
+#line 4899 "bison_parser.cpp"
     break;
 
-  case 212:
-#line 1136 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4743 "bison_parser.cpp" /* yacc.c:1646  */
+  case 212: /* binary_expr: operand '^' operand  */
+#line 1136 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
+#line 4905 "bison_parser.cpp"
     break;
 
-  case 213:
-#line 1137 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4749 "bison_parser.cpp" /* yacc.c:1646  */
+  case 213: /* binary_expr: operand LIKE operand  */
+#line 1137 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
+#line 4911 "bison_parser.cpp"
     break;
 
-  case 214:
-#line 1138 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4755 "bison_parser.cpp" /* yacc.c:1646  */
+  case 214: /* binary_expr: operand NOT LIKE operand  */
+#line 1138 "bison_parser.y"
+                           { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
+#line 4917 "bison_parser.cpp"
     break;
 
-  case 215:
-#line 1139 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4761 "bison_parser.cpp" /* yacc.c:1646  */
+  case 215: /* binary_expr: operand ILIKE operand  */
+#line 1139 "bison_parser.y"
+                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
+#line 4923 "bison_parser.cpp"
     break;
 
-  case 216:
-#line 1140 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4767 "bison_parser.cpp" /* yacc.c:1646  */
+  case 216: /* binary_expr: operand CONCAT operand  */
+#line 1140 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
+#line 4929 "bison_parser.cpp"
     break;
 
-  case 217:
-#line 1142 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4773 "bison_parser.cpp" /* yacc.c:1646  */
+  case 217: /* logic_expr: expr AND expr  */
+#line 1142 "bison_parser.y"
+                           { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
+#line 4935 "bison_parser.cpp"
     break;
 
-  case 218:
-#line 1143 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4779 "bison_parser.cpp" /* yacc.c:1646  */
+  case 218: /* logic_expr: expr OR expr  */
+#line 1143 "bison_parser.y"
+               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
+#line 4941 "bison_parser.cpp"
     break;
 
-  case 219:
-#line 1145 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4785 "bison_parser.cpp" /* yacc.c:1646  */
+  case 219: /* in_expr: operand IN '(' expr_list ')'  */
+#line 1145 "bison_parser.y"
+                                       { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
+#line 4947 "bison_parser.cpp"
     break;
 
-  case 220:
-#line 1146 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4791 "bison_parser.cpp" /* yacc.c:1646  */
+  case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
+#line 1146 "bison_parser.y"
+                                   { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
+#line 4953 "bison_parser.cpp"
     break;
 
-  case 221:
-#line 1147 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 4797 "bison_parser.cpp" /* yacc.c:1646  */
+  case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
+#line 1147 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
+#line 4959 "bison_parser.cpp"
     break;
 
-  case 222:
-#line 1148 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 4803 "bison_parser.cpp" /* yacc.c:1646  */
+  case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
+#line 1148 "bison_parser.y"
+                                         { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
+#line 4965 "bison_parser.cpp"
     break;
 
-  case 223:
-#line 1152 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 4809 "bison_parser.cpp" /* yacc.c:1646  */
+  case 223: /* case_expr: CASE expr case_list END  */
+#line 1152 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
+#line 4971 "bison_parser.cpp"
     break;
 
-  case 224:
-#line 1153 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4815 "bison_parser.cpp" /* yacc.c:1646  */
+  case 224: /* case_expr: CASE expr case_list ELSE expr END  */
+#line 1153 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
+#line 4977 "bison_parser.cpp"
     break;
 
-  case 225:
-#line 1154 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 4821 "bison_parser.cpp" /* yacc.c:1646  */
+  case 225: /* case_expr: CASE case_list END  */
+#line 1154 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
+#line 4983 "bison_parser.cpp"
     break;
 
-  case 226:
-#line 1155 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4827 "bison_parser.cpp" /* yacc.c:1646  */
+  case 226: /* case_expr: CASE case_list ELSE expr END  */
+#line 1155 "bison_parser.y"
+                               { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
+#line 4989 "bison_parser.cpp"
     break;
 
-  case 227:
-#line 1157 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4833 "bison_parser.cpp" /* yacc.c:1646  */
+  case 227: /* case_list: WHEN expr THEN expr  */
+#line 1157 "bison_parser.y"
+                                { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
+#line 4995 "bison_parser.cpp"
     break;
 
-  case 228:
-#line 1158 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4839 "bison_parser.cpp" /* yacc.c:1646  */
+  case 228: /* case_list: case_list WHEN expr THEN expr  */
+#line 1158 "bison_parser.y"
+                                { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
+#line 5001 "bison_parser.cpp"
     break;
 
-  case 229:
-#line 1160 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 4845 "bison_parser.cpp" /* yacc.c:1646  */
+  case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
+#line 1160 "bison_parser.y"
+                                             { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
+#line 5007 "bison_parser.cpp"
     break;
 
-  case 230:
-#line 1161 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 4851 "bison_parser.cpp" /* yacc.c:1646  */
+  case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
+#line 1161 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
+#line 5013 "bison_parser.cpp"
     break;
 
-  case 231:
-#line 1163 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 4857 "bison_parser.cpp" /* yacc.c:1646  */
+  case 231: /* comp_expr: operand '=' operand  */
+#line 1163 "bison_parser.y"
+                                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
+#line 5019 "bison_parser.cpp"
     break;
 
-  case 232:
-#line 1164 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 4863 "bison_parser.cpp" /* yacc.c:1646  */
+  case 232: /* comp_expr: operand EQUALS operand  */
+#line 1164 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
+#line 5025 "bison_parser.cpp"
     break;
 
-  case 233:
-#line 1165 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 4869 "bison_parser.cpp" /* yacc.c:1646  */
+  case 233: /* comp_expr: operand NOTEQUALS operand  */
+#line 1165 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
+#line 5031 "bison_parser.cpp"
     break;
 
-  case 234:
-#line 1166 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 4875 "bison_parser.cpp" /* yacc.c:1646  */
+  case 234: /* comp_expr: operand '<' operand  */
+#line 1166 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
+#line 5037 "bison_parser.cpp"
     break;
 
-  case 235:
-#line 1167 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 4881 "bison_parser.cpp" /* yacc.c:1646  */
+  case 235: /* comp_expr: operand '>' operand  */
+#line 1167 "bison_parser.y"
+                      { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
+#line 5043 "bison_parser.cpp"
     break;
 
-  case 236:
-#line 1168 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 4887 "bison_parser.cpp" /* yacc.c:1646  */
+  case 236: /* comp_expr: operand LESSEQ operand  */
+#line 1168 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
+#line 5049 "bison_parser.cpp"
     break;
 
-  case 237:
-#line 1169 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 4893 "bison_parser.cpp" /* yacc.c:1646  */
+  case 237: /* comp_expr: operand GREATEREQ operand  */
+#line 1169 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
+#line 5055 "bison_parser.cpp"
     break;
 
-  case 238:
-#line 1173 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 4899 "bison_parser.cpp" /* yacc.c:1646  */
+  case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
+#line 1173 "bison_parser.y"
+                                              { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
+#line 5061 "bison_parser.cpp"
     break;
 
-  case 239:
-#line 1174 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 4905 "bison_parser.cpp" /* yacc.c:1646  */
+  case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1174 "bison_parser.y"
+                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
+#line 5067 "bison_parser.cpp"
     break;
 
-  case 240:
-#line 1175 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 4911 "bison_parser.cpp" /* yacc.c:1646  */
+  case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
+#line 1175 "bison_parser.y"
+                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
+#line 5073 "bison_parser.cpp"
     break;
 
-  case 241:
-#line 1176 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 4917 "bison_parser.cpp" /* yacc.c:1646  */
+  case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1176 "bison_parser.y"
+                                                                      { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
+#line 5079 "bison_parser.cpp"
     break;
 
-  case 242:
-#line 1180 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 4923 "bison_parser.cpp" /* yacc.c:1646  */
+  case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
+#line 1180 "bison_parser.y"
+                                                                   { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
+#line 5085 "bison_parser.cpp"
     break;
 
-  case 243:
-#line 1181 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.window_description) = nullptr; }
-#line 4929 "bison_parser.cpp" /* yacc.c:1646  */
+  case 243: /* opt_window: %empty  */
+#line 1181 "bison_parser.y"
+              { (yyval.window_description) = nullptr; }
+#line 5091 "bison_parser.cpp"
     break;
 
-  case 244:
-#line 1183 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4935 "bison_parser.cpp" /* yacc.c:1646  */
+  case 244: /* opt_partition: PARTITION BY expr_list  */
+#line 1183 "bison_parser.y"
+                                       { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
+#line 5097 "bison_parser.cpp"
     break;
 
-  case 245:
-#line 1184 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr_vec) = nullptr; }
-#line 4941 "bison_parser.cpp" /* yacc.c:1646  */
+  case 245: /* opt_partition: %empty  */
+#line 1184 "bison_parser.y"
+              { (yyval.expr_vec) = nullptr; }
+#line 5103 "bison_parser.cpp"
     break;
 
-  case 246:
-#line 1189 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 4947 "bison_parser.cpp" /* yacc.c:1646  */
+  case 246: /* opt_frame_clause: frame_type frame_bound  */
+#line 1189 "bison_parser.y"
+                                          { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
+#line 5109 "bison_parser.cpp"
     break;
 
-  case 247:
-#line 1190 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 4953 "bison_parser.cpp" /* yacc.c:1646  */
+  case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
+#line 1190 "bison_parser.y"
+                                                 { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
+#line 5115 "bison_parser.cpp"
     break;
 
-  case 248:
-#line 1191 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 248: /* opt_frame_clause: %empty  */
+#line 1191 "bison_parser.y"
+              {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 4961 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5123 "bison_parser.cpp"
     break;
 
-  case 249:
-#line 1195 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kRange; }
-#line 4967 "bison_parser.cpp" /* yacc.c:1646  */
+  case 249: /* frame_type: RANGE  */
+#line 1195 "bison_parser.y"
+                   { (yyval.frame_type) = kRange; }
+#line 5129 "bison_parser.cpp"
     break;
 
-  case 250:
-#line 1196 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kRows; }
-#line 4973 "bison_parser.cpp" /* yacc.c:1646  */
+  case 250: /* frame_type: ROWS  */
+#line 1196 "bison_parser.y"
+       { (yyval.frame_type) = kRows; }
+#line 5135 "bison_parser.cpp"
     break;
 
-  case 251:
-#line 1197 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_type) = kGroups; }
-#line 4979 "bison_parser.cpp" /* yacc.c:1646  */
+  case 251: /* frame_type: GROUPS  */
+#line 1197 "bison_parser.y"
+         { (yyval.frame_type) = kGroups; }
+#line 5141 "bison_parser.cpp"
     break;
 
-  case 252:
-#line 1199 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 4985 "bison_parser.cpp" /* yacc.c:1646  */
+  case 252: /* frame_bound: UNBOUNDED PRECEDING  */
+#line 1199 "bison_parser.y"
+                                  { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
+#line 5147 "bison_parser.cpp"
     break;
 
-  case 253:
-#line 1200 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 4991 "bison_parser.cpp" /* yacc.c:1646  */
+  case 253: /* frame_bound: INTVAL PRECEDING  */
+#line 1200 "bison_parser.y"
+                   { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
+#line 5153 "bison_parser.cpp"
     break;
 
-  case 254:
-#line 1201 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 4997 "bison_parser.cpp" /* yacc.c:1646  */
+  case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
+#line 1201 "bison_parser.y"
+                      { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
+#line 5159 "bison_parser.cpp"
     break;
 
-  case 255:
-#line 1202 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5003 "bison_parser.cpp" /* yacc.c:1646  */
+  case 255: /* frame_bound: INTVAL FOLLOWING  */
+#line 1202 "bison_parser.y"
+                   { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
+#line 5165 "bison_parser.cpp"
     break;
 
-  case 256:
-#line 1203 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5009 "bison_parser.cpp" /* yacc.c:1646  */
+  case 256: /* frame_bound: CURRENT_ROW  */
+#line 1203 "bison_parser.y"
+              { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
+#line 5171 "bison_parser.cpp"
     break;
 
-  case 257:
-#line 1205 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5015 "bison_parser.cpp" /* yacc.c:1646  */
+  case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
+#line 1205 "bison_parser.y"
+                                                        { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
+#line 5177 "bison_parser.cpp"
     break;
 
-  case 258:
-#line 1207 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5021 "bison_parser.cpp" /* yacc.c:1646  */
+  case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
+#line 1207 "bison_parser.y"
+                                             { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
+#line 5183 "bison_parser.cpp"
     break;
 
-  case 259:
-#line 1209 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5027 "bison_parser.cpp" /* yacc.c:1646  */
+  case 259: /* datetime_field: SECOND  */
+#line 1209 "bison_parser.y"
+                        { (yyval.datetime_field) = kDatetimeSecond; }
+#line 5189 "bison_parser.cpp"
     break;
 
-  case 260:
-#line 1210 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5033 "bison_parser.cpp" /* yacc.c:1646  */
+  case 260: /* datetime_field: MINUTE  */
+#line 1210 "bison_parser.y"
+         { (yyval.datetime_field) = kDatetimeMinute; }
+#line 5195 "bison_parser.cpp"
     break;
 
-  case 261:
-#line 1211 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeHour; }
-#line 5039 "bison_parser.cpp" /* yacc.c:1646  */
+  case 261: /* datetime_field: HOUR  */
+#line 1211 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeHour; }
+#line 5201 "bison_parser.cpp"
     break;
 
-  case 262:
-#line 1212 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeDay; }
-#line 5045 "bison_parser.cpp" /* yacc.c:1646  */
+  case 262: /* datetime_field: DAY  */
+#line 1212 "bison_parser.y"
+      { (yyval.datetime_field) = kDatetimeDay; }
+#line 5207 "bison_parser.cpp"
     break;
 
-  case 263:
-#line 1213 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5051 "bison_parser.cpp" /* yacc.c:1646  */
+  case 263: /* datetime_field: MONTH  */
+#line 1213 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeMonth; }
+#line 5213 "bison_parser.cpp"
     break;
 
-  case 264:
-#line 1214 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeYear; }
-#line 5057 "bison_parser.cpp" /* yacc.c:1646  */
+  case 264: /* datetime_field: YEAR  */
+#line 1214 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeYear; }
+#line 5219 "bison_parser.cpp"
     break;
 
-  case 265:
-#line 1216 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5063 "bison_parser.cpp" /* yacc.c:1646  */
+  case 265: /* datetime_field_plural: SECONDS  */
+#line 1216 "bison_parser.y"
+                                { (yyval.datetime_field) = kDatetimeSecond; }
+#line 5225 "bison_parser.cpp"
     break;
 
-  case 266:
-#line 1217 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5069 "bison_parser.cpp" /* yacc.c:1646  */
+  case 266: /* datetime_field_plural: MINUTES  */
+#line 1217 "bison_parser.y"
+          { (yyval.datetime_field) = kDatetimeMinute; }
+#line 5231 "bison_parser.cpp"
     break;
 
-  case 267:
-#line 1218 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeHour; }
-#line 5075 "bison_parser.cpp" /* yacc.c:1646  */
+  case 267: /* datetime_field_plural: HOURS  */
+#line 1218 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeHour; }
+#line 5237 "bison_parser.cpp"
     break;
 
-  case 268:
-#line 1219 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeDay; }
-#line 5081 "bison_parser.cpp" /* yacc.c:1646  */
+  case 268: /* datetime_field_plural: DAYS  */
+#line 1219 "bison_parser.y"
+       { (yyval.datetime_field) = kDatetimeDay; }
+#line 5243 "bison_parser.cpp"
     break;
 
-  case 269:
-#line 1220 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5087 "bison_parser.cpp" /* yacc.c:1646  */
+  case 269: /* datetime_field_plural: MONTHS  */
+#line 1220 "bison_parser.y"
+         { (yyval.datetime_field) = kDatetimeMonth; }
+#line 5249 "bison_parser.cpp"
     break;
 
-  case 270:
-#line 1221 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.datetime_field) = kDatetimeYear; }
-#line 5093 "bison_parser.cpp" /* yacc.c:1646  */
+  case 270: /* datetime_field_plural: YEARS  */
+#line 1221 "bison_parser.y"
+        { (yyval.datetime_field) = kDatetimeYear; }
+#line 5255 "bison_parser.cpp"
     break;
 
-  case 273:
-#line 1225 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5099 "bison_parser.cpp" /* yacc.c:1646  */
+  case 273: /* array_expr: ARRAY '[' expr_list ']'  */
+#line 1225 "bison_parser.y"
+                                     { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
+#line 5261 "bison_parser.cpp"
     break;
 
-  case 274:
-#line 1227 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
-#line 5105 "bison_parser.cpp" /* yacc.c:1646  */
+  case 274: /* array_index: operand '[' int_literal ']'  */
+#line 1227 "bison_parser.y"
+                                          { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
+#line 5267 "bison_parser.cpp"
     break;
 
-  case 275:
-#line 1229 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5111 "bison_parser.cpp" /* yacc.c:1646  */
+  case 275: /* between_expr: operand BETWEEN operand AND operand  */
+#line 1229 "bison_parser.y"
+                                                   { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
+#line 5273 "bison_parser.cpp"
     break;
 
-  case 276:
-#line 1231 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5117 "bison_parser.cpp" /* yacc.c:1646  */
+  case 276: /* column_name: IDENTIFIER  */
+#line 1231 "bison_parser.y"
+                         { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
+#line 5279 "bison_parser.cpp"
     break;
 
-  case 277:
-#line 1232 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5123 "bison_parser.cpp" /* yacc.c:1646  */
+  case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1232 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
+#line 5285 "bison_parser.cpp"
     break;
 
-  case 278:
-#line 1233 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeStar(); }
-#line 5129 "bison_parser.cpp" /* yacc.c:1646  */
+  case 278: /* column_name: '*'  */
+#line 1233 "bison_parser.y"
+      { (yyval.expr) = Expr::makeStar(); }
+#line 5291 "bison_parser.cpp"
     break;
 
-  case 279:
-#line 1234 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5135 "bison_parser.cpp" /* yacc.c:1646  */
+  case 279: /* column_name: IDENTIFIER '.' '*'  */
+#line 1234 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
+#line 5297 "bison_parser.cpp"
     break;
 
-  case 287:
-#line 1238 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5141 "bison_parser.cpp" /* yacc.c:1646  */
+  case 287: /* string_literal: STRING  */
+#line 1238 "bison_parser.y"
+                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
+#line 5303 "bison_parser.cpp"
     break;
 
-  case 288:
-#line 1240 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5147 "bison_parser.cpp" /* yacc.c:1646  */
+  case 288: /* bool_literal: TRUE  */
+#line 1240 "bison_parser.y"
+                    { (yyval.expr) = Expr::makeLiteral(true); }
+#line 5309 "bison_parser.cpp"
     break;
 
-  case 289:
-#line 1241 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5153 "bison_parser.cpp" /* yacc.c:1646  */
+  case 289: /* bool_literal: FALSE  */
+#line 1241 "bison_parser.y"
+        { (yyval.expr) = Expr::makeLiteral(false); }
+#line 5315 "bison_parser.cpp"
     break;
 
-  case 290:
-#line 1243 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5159 "bison_parser.cpp" /* yacc.c:1646  */
+  case 290: /* num_literal: FLOATVAL  */
+#line 1243 "bison_parser.y"
+                       { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
+#line 5321 "bison_parser.cpp"
     break;
 
-  case 292:
-#line 1246 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5165 "bison_parser.cpp" /* yacc.c:1646  */
+  case 292: /* int_literal: INTVAL  */
+#line 1246 "bison_parser.y"
+                     { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
+#line 5327 "bison_parser.cpp"
     break;
 
-  case 293:
-#line 1248 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5171 "bison_parser.cpp" /* yacc.c:1646  */
+  case 293: /* null_literal: NULL  */
+#line 1248 "bison_parser.y"
+                    { (yyval.expr) = Expr::makeNullLiteral(); }
+#line 5333 "bison_parser.cpp"
     break;
 
-  case 294:
-#line 1250 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 294: /* date_literal: DATE STRING  */
+#line 1250 "bison_parser.y"
+                           {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
   if (sscanf((yyvsp[0].sval), "%4d-%2d-%2d%n", &day, &month, &year, &chars_parsed) != 3 || (yyvsp[0].sval)[chars_parsed] != 0) {
@@ -5182,18 +5344,18 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5186 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5348 "bison_parser.cpp"
     break;
 
-  case 295:
-#line 1261 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5192 "bison_parser.cpp" /* yacc.c:1646  */
+  case 295: /* interval_literal: INTVAL duration_field  */
+#line 1261 "bison_parser.y"
+                                         { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
+#line 5354 "bison_parser.cpp"
     break;
 
-  case 296:
-#line 1262 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 296: /* interval_literal: INTERVAL STRING datetime_field  */
+#line 1262 "bison_parser.y"
+                                 {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
   if (sscanf((yyvsp[-1].sval), "%d%n", &duration, &chars_parsed) != 1 || (yyvsp[-1].sval)[chars_parsed] != 0) {
@@ -5204,12 +5366,12 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5208 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5370 "bison_parser.cpp"
     break;
 
-  case 297:
-#line 1273 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 297: /* interval_literal: INTERVAL STRING  */
+#line 1273 "bison_parser.y"
+                  {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
   char unit_string[8];
@@ -5240,290 +5402,290 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5244 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5406 "bison_parser.cpp"
     break;
 
-  case 298:
-#line 1305 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 298: /* param_expr: '?'  */
+#line 1305 "bison_parser.y"
+                 {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5254 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5416 "bison_parser.cpp"
     break;
 
-  case 300:
-#line 1314 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
+#line 1314 "bison_parser.y"
+                                                                        {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5265 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5427 "bison_parser.cpp"
     break;
 
-  case 304:
-#line 1323 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
+#line 1323 "bison_parser.y"
+                                                                                     {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5276 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5438 "bison_parser.cpp"
     break;
 
-  case 305:
-#line 1330 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 305: /* table_ref_commalist: table_ref_atomic  */
+#line 1330 "bison_parser.y"
+                                       {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5285 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5447 "bison_parser.cpp"
     break;
 
-  case 306:
-#line 1334 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
+#line 1334 "bison_parser.y"
+                                           {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5294 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5456 "bison_parser.cpp"
     break;
 
-  case 307:
-#line 1339 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 307: /* table_ref_name: table_name opt_table_alias  */
+#line 1339 "bison_parser.y"
+                                            {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
   tbl->name = (yyvsp[-1].table_name).name;
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5306 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5468 "bison_parser.cpp"
     break;
 
-  case 308:
-#line 1347 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 308: /* table_ref_name_no_alias: table_name  */
+#line 1347 "bison_parser.y"
+                                     {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5316 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5478 "bison_parser.cpp"
     break;
 
-  case 309:
-#line 1353 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 309: /* table_name: IDENTIFIER  */
+#line 1353 "bison_parser.y"
+                        {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5325 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5487 "bison_parser.cpp"
     break;
 
-  case 310:
-#line 1357 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1357 "bison_parser.y"
+                            {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5334 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5496 "bison_parser.cpp"
     break;
 
-  case 311:
-#line 1362 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = (yyvsp[0].sval); }
-#line 5340 "bison_parser.cpp" /* yacc.c:1646  */
+  case 311: /* opt_index_name: IDENTIFIER  */
+#line 1362 "bison_parser.y"
+                            { (yyval.sval) = (yyvsp[0].sval); }
+#line 5502 "bison_parser.cpp"
     break;
 
-  case 312:
-#line 1363 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.sval) = nullptr; }
-#line 5346 "bison_parser.cpp" /* yacc.c:1646  */
+  case 312: /* opt_index_name: %empty  */
+#line 1363 "bison_parser.y"
+              { (yyval.sval) = nullptr; }
+#line 5508 "bison_parser.cpp"
     break;
 
-  case 314:
-#line 1365 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5352 "bison_parser.cpp" /* yacc.c:1646  */
+  case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
+#line 1365 "bison_parser.y"
+                                                            { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
+#line 5514 "bison_parser.cpp"
     break;
 
-  case 316:
-#line 1367 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = nullptr; }
-#line 5358 "bison_parser.cpp" /* yacc.c:1646  */
+  case 316: /* opt_table_alias: %empty  */
+#line 1367 "bison_parser.y"
+                                            { (yyval.alias_t) = nullptr; }
+#line 5520 "bison_parser.cpp"
     break;
 
-  case 317:
-#line 1369 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5364 "bison_parser.cpp" /* yacc.c:1646  */
+  case 317: /* alias: AS IDENTIFIER  */
+#line 1369 "bison_parser.y"
+                      { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
+#line 5526 "bison_parser.cpp"
     break;
 
-  case 318:
-#line 1370 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5370 "bison_parser.cpp" /* yacc.c:1646  */
+  case 318: /* alias: IDENTIFIER  */
+#line 1370 "bison_parser.y"
+             { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
+#line 5532 "bison_parser.cpp"
     break;
 
-  case 320:
-#line 1372 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.alias_t) = nullptr; }
-#line 5376 "bison_parser.cpp" /* yacc.c:1646  */
+  case 320: /* opt_alias: %empty  */
+#line 1372 "bison_parser.y"
+                                { (yyval.alias_t) = nullptr; }
+#line 5538 "bison_parser.cpp"
     break;
 
-  case 321:
-#line 1378 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5382 "bison_parser.cpp" /* yacc.c:1646  */
+  case 321: /* opt_locking_clause: opt_locking_clause_list  */
+#line 1378 "bison_parser.y"
+                                             { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
+#line 5544 "bison_parser.cpp"
     break;
 
-  case 322:
-#line 1379 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.locking_clause_vec) = nullptr; }
-#line 5388 "bison_parser.cpp" /* yacc.c:1646  */
+  case 322: /* opt_locking_clause: %empty  */
+#line 1379 "bison_parser.y"
+              { (yyval.locking_clause_vec) = nullptr; }
+#line 5550 "bison_parser.cpp"
     break;
 
-  case 323:
-#line 1381 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 323: /* opt_locking_clause_list: locking_clause  */
+#line 1381 "bison_parser.y"
+                                         {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5397 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5559 "bison_parser.cpp"
     break;
 
-  case 324:
-#line 1385 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
+#line 1385 "bison_parser.y"
+                                         {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5406 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5568 "bison_parser.cpp"
     break;
 
-  case 325:
-#line 1390 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
+#line 1390 "bison_parser.y"
+                                                       {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5417 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5579 "bison_parser.cpp"
     break;
 
-  case 326:
-#line 1396 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
+#line 1396 "bison_parser.y"
+                                                           {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5428 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5590 "bison_parser.cpp"
     break;
 
-  case 327:
-#line 1403 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5434 "bison_parser.cpp" /* yacc.c:1646  */
+  case 327: /* row_lock_mode: UPDATE  */
+#line 1403 "bison_parser.y"
+                       { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
+#line 5596 "bison_parser.cpp"
     break;
 
-  case 328:
-#line 1404 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5440 "bison_parser.cpp" /* yacc.c:1646  */
+  case 328: /* row_lock_mode: NO KEY UPDATE  */
+#line 1404 "bison_parser.y"
+                { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
+#line 5602 "bison_parser.cpp"
     break;
 
-  case 329:
-#line 1405 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5446 "bison_parser.cpp" /* yacc.c:1646  */
+  case 329: /* row_lock_mode: SHARE  */
+#line 1405 "bison_parser.y"
+        { (yyval.lock_mode_t) = RowLockMode::ForShare; }
+#line 5608 "bison_parser.cpp"
     break;
 
-  case 330:
-#line 1406 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5452 "bison_parser.cpp" /* yacc.c:1646  */
+  case 330: /* row_lock_mode: KEY SHARE  */
+#line 1406 "bison_parser.y"
+            { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
+#line 5614 "bison_parser.cpp"
     break;
 
-  case 331:
-#line 1408 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5458 "bison_parser.cpp" /* yacc.c:1646  */
+  case 331: /* opt_row_lock_policy: SKIP LOCKED  */
+#line 1408 "bison_parser.y"
+                                  { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
+#line 5620 "bison_parser.cpp"
     break;
 
-  case 332:
-#line 1409 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5464 "bison_parser.cpp" /* yacc.c:1646  */
+  case 332: /* opt_row_lock_policy: NOWAIT  */
+#line 1409 "bison_parser.y"
+         { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
+#line 5626 "bison_parser.cpp"
     break;
 
-  case 333:
-#line 1410 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5470 "bison_parser.cpp" /* yacc.c:1646  */
+  case 333: /* opt_row_lock_policy: %empty  */
+#line 1410 "bison_parser.y"
+              { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
+#line 5632 "bison_parser.cpp"
     break;
 
-  case 335:
-#line 1416 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.with_description_vec) = nullptr; }
-#line 5476 "bison_parser.cpp" /* yacc.c:1646  */
+  case 335: /* opt_with_clause: %empty  */
+#line 1416 "bison_parser.y"
+                                            { (yyval.with_description_vec) = nullptr; }
+#line 5638 "bison_parser.cpp"
     break;
 
-  case 336:
-#line 1418 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5482 "bison_parser.cpp" /* yacc.c:1646  */
+  case 336: /* with_clause: WITH with_description_list  */
+#line 1418 "bison_parser.y"
+                                         { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
+#line 5644 "bison_parser.cpp"
     break;
 
-  case 337:
-#line 1420 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 337: /* with_description_list: with_description  */
+#line 1420 "bison_parser.y"
+                                         {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5491 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5653 "bison_parser.cpp"
     break;
 
-  case 338:
-#line 1424 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 338: /* with_description_list: with_description_list ',' with_description  */
+#line 1424 "bison_parser.y"
+                                             {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5500 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5662 "bison_parser.cpp"
     break;
 
-  case 339:
-#line 1429 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 339: /* with_description: IDENTIFIER AS select_with_paren  */
+#line 1429 "bison_parser.y"
+                                                   {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5510 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5672 "bison_parser.cpp"
     break;
 
-  case 340:
-#line 1439 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
+#line 1439 "bison_parser.y"
+                                                                     {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = kJoinNatural;
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5522 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5684 "bison_parser.cpp"
     break;
 
-  case 341:
-#line 1446 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
+#line 1446 "bison_parser.y"
+                                                                         {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = (JoinType)(yyvsp[-4].join_type);
@@ -5531,12 +5693,12 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5535 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5697 "bison_parser.cpp"
     break;
 
-  case 342:
-#line 1454 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
+#line 1454 "bison_parser.y"
+                                                                                     {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
   (yyval.table)->join->type = (yyvsp[-6].join_type);
@@ -5544,89 +5706,90 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5548 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5710 "bison_parser.cpp"
     break;
 
-  case 343:
-#line 1463 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinInner; }
-#line 5554 "bison_parser.cpp" /* yacc.c:1646  */
+  case 343: /* opt_join_type: INNER  */
+#line 1463 "bison_parser.y"
+                      { (yyval.join_type) = kJoinInner; }
+#line 5716 "bison_parser.cpp"
     break;
 
-  case 344:
-#line 1464 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinLeft; }
-#line 5560 "bison_parser.cpp" /* yacc.c:1646  */
+  case 344: /* opt_join_type: LEFT OUTER  */
+#line 1464 "bison_parser.y"
+             { (yyval.join_type) = kJoinLeft; }
+#line 5722 "bison_parser.cpp"
     break;
 
-  case 345:
-#line 1465 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinLeft; }
-#line 5566 "bison_parser.cpp" /* yacc.c:1646  */
+  case 345: /* opt_join_type: LEFT  */
+#line 1465 "bison_parser.y"
+       { (yyval.join_type) = kJoinLeft; }
+#line 5728 "bison_parser.cpp"
     break;
 
-  case 346:
-#line 1466 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinRight; }
-#line 5572 "bison_parser.cpp" /* yacc.c:1646  */
+  case 346: /* opt_join_type: RIGHT OUTER  */
+#line 1466 "bison_parser.y"
+              { (yyval.join_type) = kJoinRight; }
+#line 5734 "bison_parser.cpp"
     break;
 
-  case 347:
-#line 1467 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinRight; }
-#line 5578 "bison_parser.cpp" /* yacc.c:1646  */
+  case 347: /* opt_join_type: RIGHT  */
+#line 1467 "bison_parser.y"
+        { (yyval.join_type) = kJoinRight; }
+#line 5740 "bison_parser.cpp"
     break;
 
-  case 348:
-#line 1468 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5584 "bison_parser.cpp" /* yacc.c:1646  */
+  case 348: /* opt_join_type: FULL OUTER  */
+#line 1468 "bison_parser.y"
+             { (yyval.join_type) = kJoinFull; }
+#line 5746 "bison_parser.cpp"
     break;
 
-  case 349:
-#line 1469 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5590 "bison_parser.cpp" /* yacc.c:1646  */
+  case 349: /* opt_join_type: OUTER  */
+#line 1469 "bison_parser.y"
+        { (yyval.join_type) = kJoinFull; }
+#line 5752 "bison_parser.cpp"
     break;
 
-  case 350:
-#line 1470 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinFull; }
-#line 5596 "bison_parser.cpp" /* yacc.c:1646  */
+  case 350: /* opt_join_type: FULL  */
+#line 1470 "bison_parser.y"
+       { (yyval.join_type) = kJoinFull; }
+#line 5758 "bison_parser.cpp"
     break;
 
-  case 351:
-#line 1471 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinCross; }
-#line 5602 "bison_parser.cpp" /* yacc.c:1646  */
+  case 351: /* opt_join_type: CROSS  */
+#line 1471 "bison_parser.y"
+        { (yyval.join_type) = kJoinCross; }
+#line 5764 "bison_parser.cpp"
     break;
 
-  case 352:
-#line 1472 "bison_parser.y" /* yacc.c:1646  */
-    { (yyval.join_type) = kJoinInner; }
-#line 5608 "bison_parser.cpp" /* yacc.c:1646  */
+  case 352: /* opt_join_type: %empty  */
+#line 1472 "bison_parser.y"
+                       { (yyval.join_type) = kJoinInner; }
+#line 5770 "bison_parser.cpp"
     break;
 
-  case 356:
-#line 1483 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 356: /* ident_commalist: IDENTIFIER  */
+#line 1483 "bison_parser.y"
+                             {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5617 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5779 "bison_parser.cpp"
     break;
 
-  case 357:
-#line 1487 "bison_parser.y" /* yacc.c:1646  */
-    {
+  case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
+#line 1487 "bison_parser.y"
+                                 {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5626 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5788 "bison_parser.cpp"
     break;
 
 
-#line 5630 "bison_parser.cpp" /* yacc.c:1646  */
+#line 5792 "bison_parser.cpp"
+
       default: break;
     }
   /* User semantic actions sometimes alter yychar, and that requires
@@ -5640,11 +5803,10 @@ yyreduce:
      case of YYERROR or YYBACKUP, subsequent parser actions might lead
      to an incorrect destructor call or verbose syntax error message
      before the lookahead is translated.  */
-  YY_SYMBOL_PRINT ("-> $$ =", yyr1[yyn], &yyval, &yyloc);
+  YY_SYMBOL_PRINT ("-> $$ =", YY_CAST (yysymbol_kind_t, yyr1[yyn]), &yyval, &yyloc);
 
   YYPOPSTACK (yylen);
   yylen = 0;
-  YY_STACK_PRINT (yyss, yyssp);
 
   *++yyvsp = yyval;
   *++yylsp = yyloc;
@@ -5652,14 +5814,13 @@ yyreduce:
   /* Now 'shift' the result of the reduction.  Determine what state
      that goes to, based on the state we popped back to and the rule
      number reduced by.  */
-
-  yyn = yyr1[yyn];
-
-  yystate = yypgoto[yyn - YYNTOKENS] + *yyssp;
-  if (0 <= yystate && yystate <= YYLAST && yycheck[yystate] == *yyssp)
-    yystate = yytable[yystate];
-  else
-    yystate = yydefgoto[yyn - YYNTOKENS];
+  {
+    const int yylhs = yyr1[yyn] - YYNTOKENS;
+    const int yyi = yypgoto[yylhs] + *yyssp;
+    yystate = (0 <= yyi && yyi <= YYLAST && yycheck[yyi] == *yyssp
+               ? yytable[yyi]
+               : yydefgoto[yylhs]);
+  }
 
   goto yynewstate;
 
@@ -5670,66 +5831,61 @@ yyreduce:
 yyerrlab:
   /* Make sure we have latest lookahead translation.  See comments at
      user semantic actions for why this is necessary.  */
-  yytoken = yychar == YYEMPTY ? YYEMPTY : YYTRANSLATE (yychar);
-
+  yytoken = yychar == SQL_HSQL_EMPTY ? YYSYMBOL_YYEMPTY : YYTRANSLATE (yychar);
   /* If not already recovering from an error, report this error.  */
   if (!yyerrstatus)
     {
       ++yynerrs;
-#if ! YYERROR_VERBOSE
-      yyerror (&yylloc, result, scanner, YY_("syntax error"));
-#else
-# define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
-                                        yyssp, yytoken)
       {
+        yypcontext_t yyctx
+          = {yyssp, yytoken, &yylloc};
         char const *yymsgp = YY_("syntax error");
         int yysyntax_error_status;
-        yysyntax_error_status = YYSYNTAX_ERROR;
+        yysyntax_error_status = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
         if (yysyntax_error_status == 0)
           yymsgp = yymsg;
-        else if (yysyntax_error_status == 1)
+        else if (yysyntax_error_status == -1)
           {
             if (yymsg != yymsgbuf)
               YYSTACK_FREE (yymsg);
-            yymsg = (char *) YYSTACK_ALLOC (yymsg_alloc);
-            if (!yymsg)
+            yymsg = YY_CAST (char *,
+                             YYSTACK_ALLOC (YY_CAST (YYSIZE_T, yymsg_alloc)));
+            if (yymsg)
               {
-                yymsg = yymsgbuf;
-                yymsg_alloc = sizeof yymsgbuf;
-                yysyntax_error_status = 2;
+                yysyntax_error_status
+                  = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
+                yymsgp = yymsg;
               }
             else
               {
-                yysyntax_error_status = YYSYNTAX_ERROR;
-                yymsgp = yymsg;
+                yymsg = yymsgbuf;
+                yymsg_alloc = sizeof yymsgbuf;
+                yysyntax_error_status = YYENOMEM;
               }
           }
         yyerror (&yylloc, result, scanner, yymsgp);
-        if (yysyntax_error_status == 2)
-          goto yyexhaustedlab;
+        if (yysyntax_error_status == YYENOMEM)
+          YYNOMEM;
       }
-# undef YYSYNTAX_ERROR
-#endif
     }
 
   yyerror_range[1] = yylloc;
-
   if (yyerrstatus == 3)
     {
       /* If just tried and failed to reuse lookahead token after an
          error, discard it.  */
 
-      if (yychar <= YYEOF)
+      if (yychar <= SQL_YYEOF)
         {
           /* Return failure if at end of input.  */
-          if (yychar == YYEOF)
+          if (yychar == SQL_YYEOF)
             YYABORT;
         }
       else
         {
           yydestruct ("Error: discarding",
                       yytoken, &yylval, &yylloc, result, scanner);
-          yychar = YYEMPTY;
+          yychar = SQL_HSQL_EMPTY;
         }
     }
 
@@ -5742,14 +5898,12 @@ yyerrlab:
 | yyerrorlab -- error raised explicitly by YYERROR.  |
 `---------------------------------------------------*/
 yyerrorlab:
+  /* Pacify compilers when the user code never invokes YYERROR and the
+     label yyerrorlab therefore never appears in user code.  */
+  if (0)
+    YYERROR;
+  ++yynerrs;
 
-  /* Pacify compilers like GCC when the user code never invokes
-     YYERROR and the label yyerrorlab therefore never appears in user
-     code.  */
-  if (/*CONSTCOND*/ 0)
-     goto yyerrorlab;
-
-  yyerror_range[1] = yylsp[1-yylen];
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYERROR.  */
   YYPOPSTACK (yylen);
@@ -5765,13 +5919,14 @@ yyerrorlab:
 yyerrlab1:
   yyerrstatus = 3;      /* Each real token shifted decrements this.  */
 
+  /* Pop stack until we find a state that shifts the error token.  */
   for (;;)
     {
       yyn = yypact[yystate];
       if (!yypact_value_is_default (yyn))
         {
-          yyn += YYTERROR;
-          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYTERROR)
+          yyn += YYSYMBOL_YYerror;
+          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYSYMBOL_YYerror)
             {
               yyn = yytable[yyn];
               if (0 < yyn)
@@ -5785,7 +5940,7 @@ yyerrlab1:
 
       yyerror_range[1] = *yylsp;
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, yylsp, result, scanner);
+                  YY_ACCESSING_SYMBOL (yystate), yyvsp, yylsp, result, scanner);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -5796,13 +5951,11 @@ yyerrlab1:
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 
   yyerror_range[2] = yylloc;
-  /* Using YYLLOC is tempting, but would change the location of
-     the lookahead.  YYLOC is available though.  */
-  YYLLOC_DEFAULT (yyloc, yyerror_range, 2);
-  *++yylsp = yyloc;
+  ++yylsp;
+  YYLLOC_DEFAULT (*yylsp, yyerror_range, 2);
 
   /* Shift the error token.  */
-  YY_SYMBOL_PRINT ("Shifting", yystos[yyn], yyvsp, yylsp);
+  YY_SYMBOL_PRINT ("Shifting", YY_ACCESSING_SYMBOL (yyn), yyvsp, yylsp);
 
   yystate = yyn;
   goto yynewstate;
@@ -5813,27 +5966,31 @@ yyerrlab1:
 `-------------------------------------*/
 yyacceptlab:
   yyresult = 0;
-  goto yyreturn;
+  goto yyreturnlab;
+
 
 /*-----------------------------------.
 | yyabortlab -- YYABORT comes here.  |
 `-----------------------------------*/
 yyabortlab:
   yyresult = 1;
-  goto yyreturn;
+  goto yyreturnlab;
+
 
-#if !defined yyoverflow || YYERROR_VERBOSE
-/*-------------------------------------------------.
-| yyexhaustedlab -- memory exhaustion comes here.  |
-`-------------------------------------------------*/
+/*-----------------------------------------------------------.
+| yyexhaustedlab -- YYNOMEM (memory exhaustion) comes here.  |
+`-----------------------------------------------------------*/
 yyexhaustedlab:
   yyerror (&yylloc, result, scanner, YY_("memory exhausted"));
   yyresult = 2;
-  /* Fall through.  */
-#endif
+  goto yyreturnlab;
+
 
-yyreturn:
-  if (yychar != YYEMPTY)
+/*----------------------------------------------------------.
+| yyreturnlab -- parsing is finished, clean up and return.  |
+`----------------------------------------------------------*/
+yyreturnlab:
+  if (yychar != SQL_HSQL_EMPTY)
     {
       /* Make sure we have latest lookahead translation.  See comments at
          user semantic actions for why this is necessary.  */
@@ -5848,20 +6005,19 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[*yyssp], yyvsp, yylsp, result, scanner);
+                  YY_ACCESSING_SYMBOL (+*yyssp), yyvsp, yylsp, result, scanner);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
   if (yyss != yyssa)
     YYSTACK_FREE (yyss);
 #endif
-#if YYERROR_VERBOSE
   if (yymsg != yymsgbuf)
     YYSTACK_FREE (yymsg);
-#endif
   return yyresult;
 }
-#line 1493 "bison_parser.y" /* yacc.c:1906  */
+
+#line 1493 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index b0a2e97..c041b8c 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -1,8 +1,9 @@
-/* A Bison parser, made by GNU Bison 3.0.4.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison interface for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015 Free Software Foundation, Inc.
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
+   Inc.
 
    This program is free software: you can redistribute it and/or modify
    it under the terms of the GNU General Public License as published by
@@ -15,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -30,6 +31,10 @@
    This special exception was added by the Free Software Foundation in
    version 2.2 of Bison.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 #ifndef YY_HSQL_BISON_PARSER_H_INCLUDED
 # define YY_HSQL_BISON_PARSER_H_INCLUDED
 /* Debug traces.  */
@@ -48,7 +53,7 @@
 extern int hsql_debug;
 #endif
 /* "%code requires" blocks.  */
-#line 39 "bison_parser.y" /* yacc.c:1909  */
+#line 39 "bison_parser.y"
 
 // %code requires block
 
@@ -60,7 +65,7 @@ extern int hsql_debug;
 #define YY_USER_ACTION                        \
   yylloc->first_line = yylloc->last_line;     \
   yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
+  for (int i = 0; i < yyleng; i++) {          \
     yylloc->total_column++;                   \
     yylloc->string_length++;                  \
     if (yytext[i] == '\n') {                  \
@@ -71,201 +76,205 @@ extern int hsql_debug;
     }                                         \
   }
 
-#line 75 "bison_parser.h" /* yacc.c:1909  */
+#line 80 "bison_parser.h"
 
-/* Token type.  */
+/* Token kinds.  */
 #ifndef HSQL_TOKENTYPE
 # define HSQL_TOKENTYPE
   enum hsql_tokentype
   {
-    SQL_IDENTIFIER = 258,
-    SQL_STRING = 259,
-    SQL_FLOATVAL = 260,
-    SQL_INTVAL = 261,
-    SQL_DEALLOCATE = 262,
-    SQL_PARAMETERS = 263,
-    SQL_INTERSECT = 264,
-    SQL_TEMPORARY = 265,
-    SQL_TIMESTAMP = 266,
-    SQL_DISTINCT = 267,
-    SQL_NVARCHAR = 268,
-    SQL_RESTRICT = 269,
-    SQL_TRUNCATE = 270,
-    SQL_ANALYZE = 271,
-    SQL_BETWEEN = 272,
-    SQL_CASCADE = 273,
-    SQL_COLUMNS = 274,
-    SQL_CONTROL = 275,
-    SQL_DEFAULT = 276,
-    SQL_EXECUTE = 277,
-    SQL_EXPLAIN = 278,
-    SQL_ENCODING = 279,
-    SQL_INTEGER = 280,
-    SQL_NATURAL = 281,
-    SQL_PREPARE = 282,
-    SQL_SCHEMAS = 283,
-    SQL_CHARACTER_VARYING = 284,
-    SQL_REAL = 285,
-    SQL_DECIMAL = 286,
-    SQL_SMALLINT = 287,
-    SQL_BIGINT = 288,
-    SQL_SPATIAL = 289,
-    SQL_VARCHAR = 290,
-    SQL_VIRTUAL = 291,
-    SQL_DESCRIBE = 292,
-    SQL_BEFORE = 293,
-    SQL_COLUMN = 294,
-    SQL_CREATE = 295,
-    SQL_DELETE = 296,
-    SQL_DIRECT = 297,
-    SQL_DOUBLE = 298,
-    SQL_ESCAPE = 299,
-    SQL_EXCEPT = 300,
-    SQL_EXISTS = 301,
-    SQL_EXTRACT = 302,
-    SQL_CAST = 303,
-    SQL_FORMAT = 304,
-    SQL_GLOBAL = 305,
-    SQL_HAVING = 306,
-    SQL_IMPORT = 307,
-    SQL_INSERT = 308,
-    SQL_ISNULL = 309,
-    SQL_OFFSET = 310,
-    SQL_RENAME = 311,
-    SQL_SCHEMA = 312,
-    SQL_SELECT = 313,
-    SQL_SORTED = 314,
-    SQL_TABLES = 315,
-    SQL_UNLOAD = 316,
-    SQL_UPDATE = 317,
-    SQL_VALUES = 318,
-    SQL_AFTER = 319,
-    SQL_ALTER = 320,
-    SQL_CROSS = 321,
-    SQL_DELTA = 322,
-    SQL_FLOAT = 323,
-    SQL_GROUP = 324,
-    SQL_INDEX = 325,
-    SQL_INNER = 326,
-    SQL_LIMIT = 327,
-    SQL_LOCAL = 328,
-    SQL_MERGE = 329,
-    SQL_MINUS = 330,
-    SQL_ORDER = 331,
-    SQL_OVER = 332,
-    SQL_OUTER = 333,
-    SQL_RIGHT = 334,
-    SQL_TABLE = 335,
-    SQL_UNION = 336,
-    SQL_USING = 337,
-    SQL_WHERE = 338,
-    SQL_CALL = 339,
-    SQL_CASE = 340,
-    SQL_CHAR = 341,
-    SQL_COPY = 342,
-    SQL_DATE = 343,
-    SQL_DATETIME = 344,
-    SQL_DESC = 345,
-    SQL_DROP = 346,
-    SQL_ELSE = 347,
-    SQL_FILE = 348,
-    SQL_FROM = 349,
-    SQL_FULL = 350,
-    SQL_HASH = 351,
-    SQL_HINT = 352,
-    SQL_INTO = 353,
-    SQL_JOIN = 354,
-    SQL_LEFT = 355,
-    SQL_LIKE = 356,
-    SQL_LOAD = 357,
-    SQL_LONG = 358,
-    SQL_NULL = 359,
-    SQL_PARTITION = 360,
-    SQL_PLAN = 361,
-    SQL_SHOW = 362,
-    SQL_TEXT = 363,
-    SQL_THEN = 364,
-    SQL_TIME = 365,
-    SQL_VIEW = 366,
-    SQL_WHEN = 367,
-    SQL_WITH = 368,
-    SQL_ADD = 369,
-    SQL_ALL = 370,
-    SQL_AND = 371,
-    SQL_ASC = 372,
-    SQL_END = 373,
-    SQL_FOR = 374,
-    SQL_INT = 375,
-    SQL_NOT = 376,
-    SQL_OFF = 377,
-    SQL_SET = 378,
-    SQL_TOP = 379,
-    SQL_AS = 380,
-    SQL_BY = 381,
-    SQL_IF = 382,
-    SQL_IN = 383,
-    SQL_IS = 384,
-    SQL_OF = 385,
-    SQL_ON = 386,
-    SQL_OR = 387,
-    SQL_TO = 388,
-    SQL_NO = 389,
-    SQL_ARRAY = 390,
-    SQL_CONCAT = 391,
-    SQL_ILIKE = 392,
-    SQL_SECOND = 393,
-    SQL_MINUTE = 394,
-    SQL_HOUR = 395,
-    SQL_DAY = 396,
-    SQL_MONTH = 397,
-    SQL_YEAR = 398,
-    SQL_SECONDS = 399,
-    SQL_MINUTES = 400,
-    SQL_HOURS = 401,
-    SQL_DAYS = 402,
-    SQL_MONTHS = 403,
-    SQL_YEARS = 404,
-    SQL_INTERVAL = 405,
-    SQL_TRUE = 406,
-    SQL_FALSE = 407,
-    SQL_BOOLEAN = 408,
-    SQL_TRANSACTION = 409,
-    SQL_BEGIN = 410,
-    SQL_COMMIT = 411,
-    SQL_ROLLBACK = 412,
-    SQL_NOWAIT = 413,
-    SQL_SKIP = 414,
-    SQL_LOCKED = 415,
-    SQL_SHARE = 416,
-    SQL_RANGE = 417,
-    SQL_ROWS = 418,
-    SQL_GROUPS = 419,
-    SQL_UNBOUNDED = 420,
-    SQL_FOLLOWING = 421,
-    SQL_PRECEDING = 422,
-    SQL_CURRENT_ROW = 423,
-    SQL_UNIQUE = 424,
-    SQL_PRIMARY = 425,
-    SQL_FOREIGN = 426,
-    SQL_KEY = 427,
-    SQL_REFERENCES = 428,
-    SQL_EQUALS = 429,
-    SQL_NOTEQUALS = 430,
-    SQL_LESS = 431,
-    SQL_GREATER = 432,
-    SQL_LESSEQ = 433,
-    SQL_GREATEREQ = 434,
-    SQL_NOTNULL = 435,
-    SQL_UMINUS = 436
+    SQL_HSQL_EMPTY = -2,
+    SQL_YYEOF = 0,                 /* "end of file"  */
+    SQL_HSQL_error = 256,          /* error  */
+    SQL_HSQL_UNDEF = 257,          /* "invalid token"  */
+    SQL_IDENTIFIER = 258,          /* IDENTIFIER  */
+    SQL_STRING = 259,              /* STRING  */
+    SQL_FLOATVAL = 260,            /* FLOATVAL  */
+    SQL_INTVAL = 261,              /* INTVAL  */
+    SQL_DEALLOCATE = 262,          /* DEALLOCATE  */
+    SQL_PARAMETERS = 263,          /* PARAMETERS  */
+    SQL_INTERSECT = 264,           /* INTERSECT  */
+    SQL_TEMPORARY = 265,           /* TEMPORARY  */
+    SQL_TIMESTAMP = 266,           /* TIMESTAMP  */
+    SQL_DISTINCT = 267,            /* DISTINCT  */
+    SQL_NVARCHAR = 268,            /* NVARCHAR  */
+    SQL_RESTRICT = 269,            /* RESTRICT  */
+    SQL_TRUNCATE = 270,            /* TRUNCATE  */
+    SQL_ANALYZE = 271,             /* ANALYZE  */
+    SQL_BETWEEN = 272,             /* BETWEEN  */
+    SQL_CASCADE = 273,             /* CASCADE  */
+    SQL_COLUMNS = 274,             /* COLUMNS  */
+    SQL_CONTROL = 275,             /* CONTROL  */
+    SQL_DEFAULT = 276,             /* DEFAULT  */
+    SQL_EXECUTE = 277,             /* EXECUTE  */
+    SQL_EXPLAIN = 278,             /* EXPLAIN  */
+    SQL_ENCODING = 279,            /* ENCODING  */
+    SQL_INTEGER = 280,             /* INTEGER  */
+    SQL_NATURAL = 281,             /* NATURAL  */
+    SQL_PREPARE = 282,             /* PREPARE  */
+    SQL_SCHEMAS = 283,             /* SCHEMAS  */
+    SQL_CHARACTER_VARYING = 284,   /* CHARACTER_VARYING  */
+    SQL_REAL = 285,                /* REAL  */
+    SQL_DECIMAL = 286,             /* DECIMAL  */
+    SQL_SMALLINT = 287,            /* SMALLINT  */
+    SQL_BIGINT = 288,              /* BIGINT  */
+    SQL_SPATIAL = 289,             /* SPATIAL  */
+    SQL_VARCHAR = 290,             /* VARCHAR  */
+    SQL_VIRTUAL = 291,             /* VIRTUAL  */
+    SQL_DESCRIBE = 292,            /* DESCRIBE  */
+    SQL_BEFORE = 293,              /* BEFORE  */
+    SQL_COLUMN = 294,              /* COLUMN  */
+    SQL_CREATE = 295,              /* CREATE  */
+    SQL_DELETE = 296,              /* DELETE  */
+    SQL_DIRECT = 297,              /* DIRECT  */
+    SQL_DOUBLE = 298,              /* DOUBLE  */
+    SQL_ESCAPE = 299,              /* ESCAPE  */
+    SQL_EXCEPT = 300,              /* EXCEPT  */
+    SQL_EXISTS = 301,              /* EXISTS  */
+    SQL_EXTRACT = 302,             /* EXTRACT  */
+    SQL_CAST = 303,                /* CAST  */
+    SQL_FORMAT = 304,              /* FORMAT  */
+    SQL_GLOBAL = 305,              /* GLOBAL  */
+    SQL_HAVING = 306,              /* HAVING  */
+    SQL_IMPORT = 307,              /* IMPORT  */
+    SQL_INSERT = 308,              /* INSERT  */
+    SQL_ISNULL = 309,              /* ISNULL  */
+    SQL_OFFSET = 310,              /* OFFSET  */
+    SQL_RENAME = 311,              /* RENAME  */
+    SQL_SCHEMA = 312,              /* SCHEMA  */
+    SQL_SELECT = 313,              /* SELECT  */
+    SQL_SORTED = 314,              /* SORTED  */
+    SQL_TABLES = 315,              /* TABLES  */
+    SQL_UNLOAD = 316,              /* UNLOAD  */
+    SQL_UPDATE = 317,              /* UPDATE  */
+    SQL_VALUES = 318,              /* VALUES  */
+    SQL_AFTER = 319,               /* AFTER  */
+    SQL_ALTER = 320,               /* ALTER  */
+    SQL_CROSS = 321,               /* CROSS  */
+    SQL_DELTA = 322,               /* DELTA  */
+    SQL_FLOAT = 323,               /* FLOAT  */
+    SQL_GROUP = 324,               /* GROUP  */
+    SQL_INDEX = 325,               /* INDEX  */
+    SQL_INNER = 326,               /* INNER  */
+    SQL_LIMIT = 327,               /* LIMIT  */
+    SQL_LOCAL = 328,               /* LOCAL  */
+    SQL_MERGE = 329,               /* MERGE  */
+    SQL_MINUS = 330,               /* MINUS  */
+    SQL_ORDER = 331,               /* ORDER  */
+    SQL_OVER = 332,                /* OVER  */
+    SQL_OUTER = 333,               /* OUTER  */
+    SQL_RIGHT = 334,               /* RIGHT  */
+    SQL_TABLE = 335,               /* TABLE  */
+    SQL_UNION = 336,               /* UNION  */
+    SQL_USING = 337,               /* USING  */
+    SQL_WHERE = 338,               /* WHERE  */
+    SQL_CALL = 339,                /* CALL  */
+    SQL_CASE = 340,                /* CASE  */
+    SQL_CHAR = 341,                /* CHAR  */
+    SQL_COPY = 342,                /* COPY  */
+    SQL_DATE = 343,                /* DATE  */
+    SQL_DATETIME = 344,            /* DATETIME  */
+    SQL_DESC = 345,                /* DESC  */
+    SQL_DROP = 346,                /* DROP  */
+    SQL_ELSE = 347,                /* ELSE  */
+    SQL_FILE = 348,                /* FILE  */
+    SQL_FROM = 349,                /* FROM  */
+    SQL_FULL = 350,                /* FULL  */
+    SQL_HASH = 351,                /* HASH  */
+    SQL_HINT = 352,                /* HINT  */
+    SQL_INTO = 353,                /* INTO  */
+    SQL_JOIN = 354,                /* JOIN  */
+    SQL_LEFT = 355,                /* LEFT  */
+    SQL_LIKE = 356,                /* LIKE  */
+    SQL_LOAD = 357,                /* LOAD  */
+    SQL_LONG = 358,                /* LONG  */
+    SQL_NULL = 359,                /* NULL  */
+    SQL_PARTITION = 360,           /* PARTITION  */
+    SQL_PLAN = 361,                /* PLAN  */
+    SQL_SHOW = 362,                /* SHOW  */
+    SQL_TEXT = 363,                /* TEXT  */
+    SQL_THEN = 364,                /* THEN  */
+    SQL_TIME = 365,                /* TIME  */
+    SQL_VIEW = 366,                /* VIEW  */
+    SQL_WHEN = 367,                /* WHEN  */
+    SQL_WITH = 368,                /* WITH  */
+    SQL_ADD = 369,                 /* ADD  */
+    SQL_ALL = 370,                 /* ALL  */
+    SQL_AND = 371,                 /* AND  */
+    SQL_ASC = 372,                 /* ASC  */
+    SQL_END = 373,                 /* END  */
+    SQL_FOR = 374,                 /* FOR  */
+    SQL_INT = 375,                 /* INT  */
+    SQL_NOT = 376,                 /* NOT  */
+    SQL_OFF = 377,                 /* OFF  */
+    SQL_SET = 378,                 /* SET  */
+    SQL_TOP = 379,                 /* TOP  */
+    SQL_AS = 380,                  /* AS  */
+    SQL_BY = 381,                  /* BY  */
+    SQL_IF = 382,                  /* IF  */
+    SQL_IN = 383,                  /* IN  */
+    SQL_IS = 384,                  /* IS  */
+    SQL_OF = 385,                  /* OF  */
+    SQL_ON = 386,                  /* ON  */
+    SQL_OR = 387,                  /* OR  */
+    SQL_TO = 388,                  /* TO  */
+    SQL_NO = 389,                  /* NO  */
+    SQL_ARRAY = 390,               /* ARRAY  */
+    SQL_CONCAT = 391,              /* CONCAT  */
+    SQL_ILIKE = 392,               /* ILIKE  */
+    SQL_SECOND = 393,              /* SECOND  */
+    SQL_MINUTE = 394,              /* MINUTE  */
+    SQL_HOUR = 395,                /* HOUR  */
+    SQL_DAY = 396,                 /* DAY  */
+    SQL_MONTH = 397,               /* MONTH  */
+    SQL_YEAR = 398,                /* YEAR  */
+    SQL_SECONDS = 399,             /* SECONDS  */
+    SQL_MINUTES = 400,             /* MINUTES  */
+    SQL_HOURS = 401,               /* HOURS  */
+    SQL_DAYS = 402,                /* DAYS  */
+    SQL_MONTHS = 403,              /* MONTHS  */
+    SQL_YEARS = 404,               /* YEARS  */
+    SQL_INTERVAL = 405,            /* INTERVAL  */
+    SQL_TRUE = 406,                /* TRUE  */
+    SQL_FALSE = 407,               /* FALSE  */
+    SQL_BOOLEAN = 408,             /* BOOLEAN  */
+    SQL_TRANSACTION = 409,         /* TRANSACTION  */
+    SQL_BEGIN = 410,               /* BEGIN  */
+    SQL_COMMIT = 411,              /* COMMIT  */
+    SQL_ROLLBACK = 412,            /* ROLLBACK  */
+    SQL_NOWAIT = 413,              /* NOWAIT  */
+    SQL_SKIP = 414,                /* SKIP  */
+    SQL_LOCKED = 415,              /* LOCKED  */
+    SQL_SHARE = 416,               /* SHARE  */
+    SQL_RANGE = 417,               /* RANGE  */
+    SQL_ROWS = 418,                /* ROWS  */
+    SQL_GROUPS = 419,              /* GROUPS  */
+    SQL_UNBOUNDED = 420,           /* UNBOUNDED  */
+    SQL_FOLLOWING = 421,           /* FOLLOWING  */
+    SQL_PRECEDING = 422,           /* PRECEDING  */
+    SQL_CURRENT_ROW = 423,         /* CURRENT_ROW  */
+    SQL_UNIQUE = 424,              /* UNIQUE  */
+    SQL_PRIMARY = 425,             /* PRIMARY  */
+    SQL_FOREIGN = 426,             /* FOREIGN  */
+    SQL_KEY = 427,                 /* KEY  */
+    SQL_REFERENCES = 428,          /* REFERENCES  */
+    SQL_EQUALS = 429,              /* EQUALS  */
+    SQL_NOTEQUALS = 430,           /* NOTEQUALS  */
+    SQL_LESS = 431,                /* LESS  */
+    SQL_GREATER = 432,             /* GREATER  */
+    SQL_LESSEQ = 433,              /* LESSEQ  */
+    SQL_GREATEREQ = 434,           /* GREATEREQ  */
+    SQL_NOTNULL = 435,             /* NOTNULL  */
+    SQL_UMINUS = 436               /* UMINUS  */
   };
+  typedef enum hsql_tokentype hsql_token_kind_t;
 #endif
 
 /* Value type.  */
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
-
 union HSQL_STYPE
 {
-#line 102 "bison_parser.y" /* yacc.c:1909  */
+#line 102 "bison_parser.y"
 
   // clang-format on
   bool bval;
@@ -340,9 +349,9 @@ union HSQL_STYPE
 
   // clang-format off
 
-#line 344 "bison_parser.h" /* yacc.c:1909  */
-};
+#line 353 "bison_parser.h"
 
+};
 typedef union HSQL_STYPE HSQL_STYPE;
 # define HSQL_STYPE_IS_TRIVIAL 1
 # define HSQL_STYPE_IS_DECLARED 1
@@ -364,6 +373,8 @@ struct HSQL_LTYPE
 
 
 
+
 int hsql_parse (hsql::SQLParserResult* result, yyscan_t scanner);
 
+
 #endif /* !YY_HSQL_BISON_PARSER_H_INCLUDED  */
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 053b78a..a6383bc 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -47,7 +47,7 @@
 #define YY_USER_ACTION                        \
   yylloc->first_line = yylloc->last_line;     \
   yylloc->first_column = yylloc->last_column; \
-  for (int i = 0; yytext[i] != '\0'; i++) {   \
+  for (int i = 0; i < yyleng; i++) {          \
     yylloc->total_column++;                   \
     yylloc->string_length++;                  \
     if (yytext[i] == '\n') {                  \
diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 4312d62..75a8a09 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -573,8 +573,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 189
-#define YY_END_OF_BUFFER 190
+#define YY_NUM_RULES 190
+#define YY_END_OF_BUFFER 191
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -582,84 +582,84 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[693] =
+static const flex_int16_t yy_accept[694] =
     {   0,
-        0,    0,  186,  186,    2,    2,  190,  188,    4,    4,
-      188,  188,  177,  184,  177,  177,  181,  177,  177,  177,
+        0,    0,  186,  186,    2,    2,  191,  189,    4,    4,
+      189,  189,  177,  184,  177,  177,  181,  177,  177,  177,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  177,  186,  187,    2,    3,    4,
-      172,    0,    1,    0,  179,  178,  181,  174,  173,  171,
-      175,  183,  183,  183,  183,  183,  183,   12,  183,  183,
-      183,   19,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  177,  186,  188,  187,    2,    3,
+        4,  172,    0,    1,    0,  179,  178,  181,  174,  173,
+      171,  175,  183,  183,  183,  183,  183,  183,   12,  183,
+      183,  183,   19,  183,  183,  183,  183,  183,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,   73,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,   73,  183,
 
-       76,   85,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  103,  183,  183,  108,  111,  112,  183,  183,  183,
+      183,   76,   85,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  103,  183,  183,  108,  111,  112,  183,  183,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  149,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  176,  186,  185,
-        2,  182,    0,  178,    5,  183,    7,  183,  183,   10,
-      183,   13,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,   34,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  149,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  176,  186,
+      185,    2,  182,    0,  178,    5,  183,    7,  183,  183,
+       10,  183,   13,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  183,   34,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-       49,  183,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,   49,  183,  183,  183,  183,  183,  183,  183,  183,
 
-      183,   60,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,   80,  183,  183,   88,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  104,
-      183,  183,  183,  109,  183,  183,  183,  183,  183,  183,
+      183,  183,   60,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,   80,  183,  183,   88,
       183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  135,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  150,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,    0,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,   20,
-      183,   22,   23,   24,  183,  183,  183,   29,  183,  183,
-
-      183,   32,   35,  183,  183,  183,  183,  183,   41,  183,
-      183,  183,   46,   47,  183,  183,  183,  183,  183,  183,
-      183,  183,   57,  183,  183,  183,  183,   63,   64,  183,
-      183,   68,  183,   70,   71,  183,  183,  183,  183,  183,
-      183,   84,  183,   87,   89,   90,  183,   92,  183,  183,
-       95,  183,  183,  183,  183,  183,  106,  183,  183,  183,
-      183,  115,  183,  183,  118,  183,  183,  183,  183,  123,
-      183,  183,  183,  183,  183,  129,  183,  183,  183,  183,
-      137,  138,  183,  183,  183,  183,  183,  145,  146,  147,
-      183,  152,  183,  183,  183,  183,  183,  183,  183,  183,
-
-      183,  162,  183,  164,  183,  166,  167,    0,    6,    8,
-      183,   11,  183,   15,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   31,  183,  183,  183,  183,  183,  183,
-       40,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,   56,   58,  183,  183,  183,  183,   66,  183,
-       72,   74,  183,   77,   78,  183,  183,  183,  183,   91,
-       93,  183,   96,   97,  183,  100,  183,  183,  183,  183,
-      113,  114,  183,  183,  183,  183,  183,  122,  183,  183,
-      183,  127,  183,  183,  183,  183,  136,  183,  183,  183,
-      142,  183,  183,  183,  183,  183,  155,  183,  183,  183,
-
-      159,  183,  183,  183,  165,  168,    0,  183,   14,  183,
-       17,  183,  183,  183,   25,   27,  183,   30,  183,  183,
-      183,  183,  183,   39,  183,   43,  183,   45,  183,   50,
-       51,  183,   53,  183,  183,  183,  183,   62,   65,   67,
-       69,   75,   79,  183,  183,  183,   86,   94,   98,  101,
-      183,  105,  183,  110,  183,  183,  183,  183,  183,  183,
-      125,  183,  183,  130,  132,  134,  183,  140,  183,  143,
-      183,  183,  183,  183,  183,  156,  157,  158,  160,  183,
-      183,    0,    9,   16,   18,   21,  183,   26,   28,  183,
-      183,  183,   37,   38,  183,  183,  183,   52,   54,   55,
-
-      183,   61,   81,  183,  183,   99,  102,  183,  183,  183,
-      183,  120,  121,  183,  183,  183,  131,  133,  183,  141,
-      183,  183,  183,  183,  183,  161,  163,    0,  183,    0,
-       33,  183,   42,   44,   48,  183,  183,   83,  107,  183,
-      183,  183,  183,  126,  128,  139,  183,  183,  183,  153,
-      183,    0,  183,    0,  183,   59,   82,  183,  117,  119,
-      183,  144,  148,  183,  154,    0,    0,    0,   36,  116,
-      124,  183,    0,    0,  169,  151,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,  170,    0,    0,
-      180,    0
+      104,  183,  183,  183,  109,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  135,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  150,  183,  183,  183,  183,
+      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
+        0,  183,  183,  183,  183,  183,  183,  183,  183,  183,
+       20,  183,   22,   23,   24,  183,  183,  183,   29,  183,
+
+      183,  183,   32,   35,  183,  183,  183,  183,  183,   41,
+      183,  183,  183,   46,   47,  183,  183,  183,  183,  183,
+      183,  183,  183,   57,  183,  183,  183,  183,   63,   64,
+      183,  183,   68,  183,   70,   71,  183,  183,  183,  183,
+      183,  183,   84,  183,   87,   89,   90,  183,   92,  183,
+      183,   95,  183,  183,  183,  183,  183,  106,  183,  183,
+      183,  183,  115,  183,  183,  118,  183,  183,  183,  183,
+      123,  183,  183,  183,  183,  183,  129,  183,  183,  183,
+      183,  137,  138,  183,  183,  183,  183,  183,  145,  146,
+      147,  183,  152,  183,  183,  183,  183,  183,  183,  183,
+
+      183,  183,  162,  183,  164,  183,  166,  167,    0,    6,
+        8,  183,   11,  183,   15,  183,  183,  183,  183,  183,
+      183,  183,  183,  183,   31,  183,  183,  183,  183,  183,
+      183,   40,  183,  183,  183,  183,  183,  183,  183,  183,
+      183,  183,  183,   56,   58,  183,  183,  183,  183,   66,
+      183,   72,   74,  183,   77,   78,  183,  183,  183,  183,
+       91,   93,  183,   96,   97,  183,  100,  183,  183,  183,
+      183,  113,  114,  183,  183,  183,  183,  183,  122,  183,
+      183,  183,  127,  183,  183,  183,  183,  136,  183,  183,
+      183,  142,  183,  183,  183,  183,  183,  155,  183,  183,
+
+      183,  159,  183,  183,  183,  165,  168,    0,  183,   14,
+      183,   17,  183,  183,  183,   25,   27,  183,   30,  183,
+      183,  183,  183,  183,   39,  183,   43,  183,   45,  183,
+       50,   51,  183,   53,  183,  183,  183,  183,   62,   65,
+       67,   69,   75,   79,  183,  183,  183,   86,   94,   98,
+      101,  183,  105,  183,  110,  183,  183,  183,  183,  183,
+      183,  125,  183,  183,  130,  132,  134,  183,  140,  183,
+      143,  183,  183,  183,  183,  183,  156,  157,  158,  160,
+      183,  183,    0,    9,   16,   18,   21,  183,   26,   28,
+      183,  183,  183,   37,   38,  183,  183,  183,   52,   54,
+
+       55,  183,   61,   81,  183,  183,   99,  102,  183,  183,
+      183,  183,  120,  121,  183,  183,  183,  131,  133,  183,
+      141,  183,  183,  183,  183,  183,  161,  163,    0,  183,
+        0,   33,  183,   42,   44,   48,  183,  183,   83,  107,
+      183,  183,  183,  183,  126,  128,  139,  183,  183,  183,
+      153,  183,    0,  183,    0,  183,   59,   82,  183,  117,
+      119,  183,  144,  148,  183,  154,    0,    0,    0,   36,
+      116,  124,  183,    0,    0,  169,  151,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,  170,    0,
+        0,  180,    0
 
     } ;
 
@@ -695,7 +695,7 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[77] =
+static const YY_CHAR yy_meta[78] =
     {   0,
         1,    1,    2,    1,    3,    1,    4,    1,    1,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    1,
@@ -704,172 +704,172 @@ static const YY_CHAR yy_meta[77] =
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
         5,    5,    5,    5,    5,    5,    5,    5,    5,    5,
-        5,    5,    5,    5,    5,    1
+        5,    5,    5,    5,    5,    1,    6
     } ;
 
-static const flex_int16_t yy_base[699] =
+static const flex_int16_t yy_base[700] =
     {   0,
-        0,    0,  577,  528,  526,  426,  378, 1472,   75,   77,
-      356,    0, 1472, 1472,   73,   72,   84,   83,  355,  344,
-       80,   80,   89,  134,  126,  179,   75,   87,  189,   76,
-       95,  139,  142,  168,  219,  181,    0,  233,  273,  316,
-       87,  203,  150,  104,  288,    0,  355,    0, 1472,  161,
-     1472,  355, 1472,  345,  302,  374,  385, 1472, 1472, 1472,
-     1472,    0,  142,  140,  224,  242,  174,  202,  294,  216,
-      230,    0,  290,  246,  306,  318,  235,  363,  383,  237,
-      237,  262,  260,  387,  307,  389,  300,  314,  315,  375,
-      317,  373,  381,  382,  381,  385,  380,    0,  395,  390,
-
-      430,  394,  428,  413,  433,  429,  440,  427,  432,  433,
-      428,  432,  439,  452,  450,    0,  453,  438,  454,  442,
-      461,  483,  449,  490,  486,  482,  487,  494,  497,  490,
-      499,  483,  501,  501,  521,  503,  497,  495,  539,  540,
-      512,  508,  535,  541,  543,  530,  550, 1472,    0, 1472,
-        0, 1472,  317,  600,    0,  549,    0,  550,  544,    0,
-      556,    0,  543,  562,  576,  591,  589,  590,  600,  586,
-      585,  594,  588,  584,  609,  592,  594,  608,  595,  603,
-      607,  616,  640,  616,  616,  602,  621,  608,  620,  638,
-        0,  653,  650,  653,  638,  646,  641,  642,  657,  662,
-
-      652,  660,  653,  655,  666,  648,  662,  662,  654,  657,
-      665,  662,  673,  674,  694,  702,  687,  695,    0,  690,
-      706,  703,  709,  713,  708,  709,  697,  699,  699,    0,
-      720,  710,  705,  706,  722,  723,  711,  752,  716,  755,
-      719,  726,  749,  757,  762,  744,  757,  754,  748,  763,
-      754,  765,    0,  755,  751,  759,  764,  757,  758,  767,
-      765,  762,  769,  779,    0,  772,  802,  772,  800,  797,
-      817,  805,  799,  818,  799,  803,  810,  817,  808,  296,
-      809,  811,  805,  806,  814,  819,  830,  822,  832,    0,
-      837,    0,    0,  839,  828,  852,  848,    0,  849,  851,
-
-      866,  852,    0,  861,  861,  854,  856,  876,  860,  876,
-      871,  869,    0,    0,  878,  867,  868,  864,  866,  886,
-      888,  885,    0,  871,  877,  885,  894,    0,    0,  914,
-      904,    0,  909,    0,  905,  920,  908,  903,  910,  911,
-      923,    0,  919,    0,    0,    0,  912,    0,  921,  929,
-        0,  930,  917,  930,  921,  931,    0,  940,  939,  927,
-      928,    0,  935,  940,    0,  964,  973,  976,  973,    0,
-      961,  967,  963,  962,  981,    0,  971,  971,  983,  982,
-        0,    0,  976,  984,  981,  986,  977,    0,    0,  974,
-      975,    0,  992,  976,  984,  978,  999,  982,  996, 1018,
-
-     1020,    0, 1010,    0, 1027,    0, 1014,  275,    0,    0,
-     1008,    0, 1030,    0, 1031, 1017, 1037, 1035, 1037, 1027,
-     1022, 1028, 1039,    0, 1031, 1037, 1032, 1047, 1037, 1046,
-        0, 1043, 1033, 1040, 1051, 1048, 1072, 1062, 1065, 1067,
-     1078, 1085,    0,    0, 1066, 1083, 1071, 1080, 1074, 1087,
-        0,    0, 1075,    0,    0, 1076, 1092, 1079, 1087,    0,
-        0, 1096,    0,    0, 1097, 1084, 1104, 1086, 1099, 1088,
-        0,    0, 1105, 1091, 1127, 1118, 1121,    0, 1135, 1136,
-     1133,    0, 1142, 1143, 1141, 1126,    0, 1138, 1144, 1148,
-     1131, 1133, 1132, 1152, 1153, 1141,    0, 1151, 1153, 1154,
-
-        0, 1141, 1160, 1161,    0,    0,  267, 1159,    0, 1151,
-        0, 1171, 1185, 1173, 1175,    0, 1183,    0, 1176, 1184,
-     1195, 1187, 1180,    0, 1199,    0, 1199,    0, 1189,    0,
-        0, 1199,    0, 1191, 1186, 1198, 1194,    0,    0,    0,
-        0,    0,    0, 1191, 1205, 1210,    0,    0, 1194,    0,
-     1202,    0, 1214,    0, 1196, 1209, 1210, 1234, 1219, 1233,
-        0, 1245, 1246, 1231, 1232,    0, 1238,    0, 1241,    0,
-     1253, 1254, 1253, 1237, 1254,    0,    0,    0,    0, 1241,
-     1248,  269,    0,    0,    0,    0, 1256,    0,    0,  175,
-     1257, 1262,    0,    0, 1259, 1245, 1260,    0,    0,    0,
-
-     1254,    0,    0, 1266, 1258,    0,    0, 1254, 1268, 1278,
-     1284,    0,    0, 1298, 1282, 1292,    0,    0, 1284,    0,
-     1287, 1293, 1287, 1303, 1304,    0,    0,  269, 1292, 1331,
-        0, 1293,    0,    0,    0, 1307, 1295,    0,    0, 1298,
-     1303, 1311, 1314,    0,    0,    0, 1296, 1307, 1315,    0,
-     1322,  263,  183, 1312, 1333,    0,    0, 1320,    0,    0,
-     1328,    0,    0, 1337,    0,  257, 1375, 1334,    0,    0,
-        0, 1344,  253, 1358, 1472,    0,  221, 1342,  221, 1336,
-      216, 1353,  211, 1349,  205, 1357,  172, 1472,  173,  157,
-     1472, 1472, 1446, 1451, 1456,  125, 1461, 1466
+        0,    0,   71,   72,  367,  366,  368, 1483,   78,   80,
+      345,    0, 1483, 1483,   76,   75,   87,   86,  342,  307,
+      124,   82,   87,  132,  132,  183,   78,  130,  174,   74,
+       87,  170,  185,  188,  220,  217,    0,  239,  279,  322,
+      233,  112,  188,   88,  235,    0,  303, 1483,    0, 1483,
+      118, 1483,  289, 1483,  273,  308,  380,  391, 1483, 1483,
+     1483, 1483,    0,  121,  129,  231,  279,  136,  202,  309,
+      226,  224,    0,  274,  245,  312,  303,  232,  313,  388,
+      374,  237,  249,  293,  392,  329,  394,  322,  324,  375,
+      386,  386,  390,  390,  391,  389,  395,  391,    0,  404,
+
+      399,  439,  430,  436,  421,  441,  437,  448,  434,  440,
+      441,  436,  437,  449,  462,  458,    0,  461,  446,  462,
+      450,  468,  492,  484,  498,  493,  490,  495,  502,  505,
+      498,  507,  491,  509,  509,  529,  511,  505,  503,  547,
+      548,  547,  543,  543,  549,  551,  538,  558, 1483,    0,
+     1483,    0, 1483,  269,  608,    0,  557,    0,  558,  552,
+        0,  564,    0,  551,  597,  584,  599,  597,  598,  608,
+      594,  593,  602,  596,  592,  617,  600,  602,  616,  603,
+      611,  615,  624,  648,  624,  624,  610,  629,  616,  655,
+      646,    0,  661,  658,  661,  646,  654,  649,  650,  665,
+
+      670,  660,  668,  661,  663,  674,  656,  670,  670,  662,
+      665,  673,  670,  681,  702,  709,  710,  695,  703,    0,
+      698,  714,  711,  717,  721,  716,  717,  705,  707,  707,
+        0,  728,  718,  713,  714,  730,  731,  719,  760,  724,
+      763,  727,  761,  757,  765,  770,  752,  765,  762,  756,
+      771,  762,  773,    0,  763,  759,  767,  772,  765,  766,
+      775,  773,  770,  777,  787,    0,  780,  810,  805,  808,
+      807,  825,  813,  807,  826,  807,  811,  818,  825,  816,
+      266,  817,  819,  813,  814,  822,  827,  838,  830,  840,
+        0,  845,    0,    0,  847,  856,  865,  858,    0,  857,
+
+      859,  874,  860,    0,  869,  869,  862,  864,  884,  868,
+      884,  879,  877,    0,    0,  886,  875,  876,  872,  874,
+      894,  896,  893,    0,  879,  885,  893,  922,    0,    0,
+      927,  914,    0,  917,    0,  913,  928,  916,  911,  918,
+      919,  931,    0,  927,    0,    0,    0,  920,    0,  929,
+      937,    0,  938,  925,  938,  929,  939,    0,  948,  947,
+      935,  936,    0,  943,  968,    0,  977,  983,  984,  981,
+        0,  969,  975,  971,  970,  989,    0,  979,  979,  991,
+      990,    0,    0,  984,  992,  989,  994,  985,    0,    0,
+      982,  983,    0, 1000,  984,  992,  986, 1007,  990, 1024,
+
+     1031, 1030,    0, 1018,    0, 1035,    0, 1022,  264,    0,
+        0, 1016,    0, 1038,    0, 1039, 1025, 1045, 1043, 1045,
+     1035, 1030, 1036, 1047,    0, 1039, 1045, 1040, 1055, 1045,
+     1054,    0, 1051, 1041, 1048, 1059, 1076, 1085, 1072, 1073,
+     1075, 1086, 1093,    0,    0, 1074, 1091, 1079, 1088, 1082,
+     1095,    0,    0, 1083,    0,    0, 1084, 1100, 1087, 1095,
+        0,    0, 1104,    0,    0, 1105, 1092, 1112, 1094, 1107,
+     1096,    0,    0, 1113, 1119, 1140, 1128, 1129,    0, 1143,
+     1144, 1141,    0, 1150, 1151, 1149, 1134,    0, 1146, 1152,
+     1156, 1139, 1141, 1140, 1160, 1161, 1149,    0, 1159, 1161,
+
+     1162,    0, 1149, 1168, 1169,    0,    0,  213, 1167,    0,
+     1179,    0, 1184, 1195, 1181, 1183,    0, 1191,    0, 1184,
+     1192, 1203, 1195, 1188,    0, 1207,    0, 1207,    0, 1197,
+        0,    0, 1207,    0, 1199, 1194, 1206, 1202,    0,    0,
+        0,    0,    0,    0, 1199, 1213, 1218,    0,    0, 1202,
+        0, 1210,    0, 1222,    0, 1204, 1217, 1238, 1247, 1229,
+     1241,    0, 1253, 1254, 1239, 1240,    0, 1246,    0, 1249,
+        0, 1261, 1262, 1261, 1245, 1262,    0,    0,    0,    0,
+     1249, 1256,  209,    0,    0,    0,    0, 1264,    0,    0,
+      120, 1265, 1270,    0,    0, 1267, 1253, 1268,    0,    0,
+
+        0, 1262,    0,    0, 1274, 1266,    0,    0, 1262, 1296,
+     1291, 1294,    0,    0, 1306, 1290, 1300,    0,    0, 1292,
+        0, 1295, 1301, 1295, 1311, 1312,    0,    0,  203, 1300,
+     1339,    0, 1301,    0,    0,    0, 1315, 1303,    0,    0,
+     1306, 1311, 1319, 1322,    0,    0,    0, 1304, 1315, 1323,
+        0, 1330,  191,  123, 1331, 1342,    0,    0, 1336,    0,
+        0, 1341,    0,    0, 1347,    0,  173, 1383, 1342,    0,
+        0,    0, 1352,  166, 1366, 1483,    0,  168, 1350,  167,
+     1344,  158, 1361,  117, 1357,  118, 1365,  114, 1483,  121,
+      110, 1483, 1483, 1454, 1460, 1466,  111, 1471, 1476
 
     } ;
 
-static const flex_int16_t yy_def[699] =
+static const flex_int16_t yy_def[700] =
     {   0,
-      692,    1,  693,  693,  694,  694,  692,  692,  692,  692,
-      692,  695,  692,  692,  692,  692,  692,  692,  692,  692,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  692,  697,  692,  698,  692,  692,
-      692,  695,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  692,  697,  692,
-      698,  692,  692,  692,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  692,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-
-      696,  696,  696,  696,  696,  696,  696,  692,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-
-      696,  696,  696,  696,  696,  696,  692,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  692,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  692,  696,  692,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
-      696,  692,  696,  692,  696,  696,  696,  696,  696,  696,
-      696,  696,  696,  696,  696,  692,  692,  692,  696,  696,
-      696,  696,  692,  692,  692,  696,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,    0,  692,  692,  692,  692,  692,  692
+      693,    1,  694,  694,  695,  695,  693,  693,  693,  693,
+      693,  696,  693,  693,  693,  693,  693,  693,  693,  693,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  693,  698,  693,  693,  699,  693,
+      693,  693,  696,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  693,  698,
+      693,  699,  693,  693,  693,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      693,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+
+      697,  697,  697,  697,  697,  697,  697,  697,  693,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+
+      697,  697,  697,  697,  697,  697,  697,  693,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  693,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  693,  697,
+      693,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
+      697,  697,  693,  697,  693,  697,  697,  697,  697,  697,
+      697,  697,  697,  697,  697,  697,  693,  693,  693,  697,
+      697,  697,  697,  693,  693,  693,  697,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,    0,  693,  693,  693,  693,  693,  693
 
     } ;
 
-static const flex_int16_t yy_nxt[1549] =
+static const flex_int16_t yy_nxt[1561] =
     {   0,
         8,    9,   10,   11,   12,   13,   14,   15,   16,   17,
        17,   17,   17,   17,   17,   17,   17,   17,   17,   18,
@@ -878,172 +878,173 @@ static const flex_int16_t yy_nxt[1549] =
        39,   40,   41,   42,   43,   37,   44,   37,    8,   21,
        22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
        32,   33,   34,   35,   36,   37,   38,   39,   40,   41,
-       42,   43,   37,   44,   37,   45,   50,   50,   50,   50,
-       53,   55,   55,   55,   55,   55,   55,   55,   55,   55,
-       55,   54,   56,   57,   57,   57,   57,   57,   57,   57,
-
-       57,   57,   57,   58,   59,   63,   69,   64,   93,   95,
-       70,   73,  103,   65,   94,   66,   71,   96,   74,   67,
-       68,  104,  140,   97,  141,   75,   72,  142,   76,   62,
-      147,   77,   63,   69,   64,   93,   95,   70,   73,  103,
-       65,   94,   66,   71,   96,   74,   67,   68,  104,  140,
-       97,  141,   75,   72,  142,   76,   78,  147,   77,   83,
-       79,   84,   50,   50,   80,  105,   85,  155,  108,  106,
-       81,   86,  109,   82,  691,  107,  630,  630,  110,  145,
-      146,  156,  690,   78,  667,  667,   83,   79,   84,  689,
-      111,   80,  105,   85,  155,  108,  106,   81,   86,  109,
-
-       82,   87,  107,  120,  112,  110,  145,  146,  156,   88,
-      113,  114,   89,  161,  121,   90,   98,  111,   91,  687,
-      122,   92,   99,  100,  101,  143,  162,  685,   87,  102,
-      120,  112,  683,  144,  681,  679,   88,  113,  114,   89,
-      161,  121,   90,   98,  166,   91,  115,  122,   92,   99,
-      100,  101,  143,  162,  116,  123,  102,  157,  117,  124,
-      144,  118,  119,  125,  159,  158,  167,  160,  170,  126,
-      677,  166,  673,  115,  177,  666,  185,  186,  652,  187,
-      628,  116,  123,  582,  157,  117,  124,  507,  118,  119,
-      125,  159,  158,  167,  160,  170,  126,  127,  188,  128,
-
-      189,  177,  129,  185,  186,  130,  187,  131,  408,  132,
-      133,   55,   55,   55,   55,   55,   55,   55,   55,   55,
-       55,  163,  164,  168,  127,  188,  128,  189,  280,  129,
-      169,  192,  130,  198,  131,  165,  132,  133,  134,  171,
-      172,  173,  135,  174,  175,  136,  137,  199,  163,  164,
-      168,  200,  138,  203,  176,  139,  153,  169,  192,  152,
-      198,  150,  165,  148,   61,  134,  171,  172,  173,  135,
-      174,  175,  136,  137,  199,   60,   51,  692,  200,  138,
-      203,  176,  139,  154,  154,  154,  154,  154,  154,  154,
-      154,  154,  154,   56,   57,   57,   57,   57,   57,   57,
-
-       57,   57,   57,   57,  178,  180,  204,  181,  201,  179,
-      182,  190,  191,  193,  202,  194,  183,  205,  206,  195,
-      209,  207,  210,  184,  208,  211,  196,  212,   49,  217,
-      197,  178,  180,  204,  181,  201,  179,  182,  190,  191,
-      193,  202,  194,  183,  205,  206,  195,  209,  207,  210,
-      184,  208,  211,  196,  212,  213,  217,  197,  218,  219,
-      220,  221,  223,  222,  224,  214,  226,  227,  228,  229,
-      215,  216,  232,  230,  233,  225,  231,  234,  235,  236,
-      237,  238,  213,  239,  242,  218,  219,  220,  221,  223,
-      222,  224,  214,  226,  227,  228,  229,  215,  216,  232,
-
-      230,  233,  225,  231,  234,  235,  236,  237,  238,  240,
-      239,  242,  243,  241,  247,  248,  250,  244,  251,  254,
-      256,  257,  258,  259,  260,  245,  249,  252,   49,  263,
-      246,  264,  265,  255,   47,  253,  240,  271,  272,  243,
-      241,  247,  248,  250,  244,  251,  254,  256,  257,  258,
-      259,  260,  245,  249,  252,  261,  263,  246,  264,  265,
-      255,  266,  253,  268,  271,  272,  262,  275,  273,  277,
-      269,  278,  279,  270,  274,  281,  282,  283,  284,  285,
-      276,  267,  261,   47,  692,  692,  692,  692,  266,  692,
-      268,  692,  286,  262,  275,  273,  277,  269,  278,  279,
-
-      270,  274,  281,  282,  283,  284,  285,  276,  267,  154,
-      154,  154,  154,  154,  154,  154,  154,  154,  154,  286,
-      287,  288,  289,  290,  291,  294,  292,  295,  296,  297,
-      298,  299,  300,  301,  302,  303,  304,  305,  306,  692,
-      309,  293,  310,  311,  312,  313,  314,  287,  288,  289,
-      290,  291,  294,  292,  295,  296,  297,  298,  299,  300,
-      301,  302,  303,  304,  305,  306,  307,  309,  293,  310,
-      311,  312,  313,  314,  315,  316,  317,  318,  319,  320,
-      321,  308,  322,  323,  324,  325,  326,  328,  329,  330,
-      331,  332,  333,  307,  327,  334,  335,  336,  337,  338,
-
-      339,  315,  316,  317,  318,  319,  320,  321,  308,  322,
-      323,  324,  325,  326,  328,  329,  330,  331,  332,  333,
-      340,  327,  334,  335,  336,  337,  338,  339,  341,  343,
-      344,  345,  346,  347,  348,  349,  351,  352,  342,  353,
-      354,  355,  356,  357,  358,  350,  359,  340,  360,  361,
-      362,  365,  692,  368,  369,  341,  343,  344,  345,  346,
-      347,  348,  349,  351,  352,  342,  353,  354,  355,  356,
-      357,  358,  350,  359,  363,  360,  361,  362,  365,  366,
-      368,  369,  370,  371,  372,  373,  374,  375,  376,  377,
-      378,  379,  367,  364,  380,  381,  382,  383,  384,  385,
-
-      386,  363,  387,  388,  389,  390,  366,  391,  394,  370,
-      371,  372,  373,  374,  375,  376,  377,  378,  379,  367,
-      364,  380,  381,  382,  383,  384,  385,  386,  392,  387,
-      388,  389,  390,  397,  391,  394,  395,  393,  396,  398,
-      399,  400,  401,  402,  403,  404,  406,  407,  409,  405,
-      410,  411,  412,  413,  414,  392,  415,  416,  417,  418,
-      397,  419,  420,  395,  393,  396,  398,  399,  400,  401,
-      402,  403,  404,  406,  407,  409,  405,  410,  411,  412,
-      413,  414,  421,  415,  416,  417,  418,  422,  419,  420,
-      423,  424,  425,  426,  427,  428,  429,  430,  431,  432,
-
-      433,  434,  435,  436,  437,  438,  439,  440,  441,  421,
-      442,  443,  444,  445,  422,  446,  447,  423,  424,  425,
+       42,   43,   37,   44,   37,   45,    8,   47,   47,   51,
+       51,   51,   51,   54,   56,   56,   56,   56,   56,   56,
+       56,   56,   56,   56,   55,   57,   58,   58,   58,   58,
+
+       58,   58,   58,   58,   58,   58,   59,   60,   70,   74,
+      104,   94,   71,  105,  148,   63,   75,   95,   72,   51,
+       51,  631,  631,   76,  668,  668,   77,  692,   73,   78,
+      691,  690,  688,  686,  144,   70,   74,  104,   94,   71,
+      105,  148,  145,   75,   95,   72,  156,   48,   48,   64,
+       76,   65,   96,   77,   79,   73,   78,   66,   80,   67,
+       97,  144,   81,   68,   69,   84,   98,   85,   82,  145,
+      157,   83,   86,  156,  684,  162,   64,   87,   65,   96,
+      682,   79,  680,  678,   66,   80,   67,   97,  674,   81,
+       68,   69,   84,   98,   85,   82,  106,  157,   83,   86,
+
+      107,   99,  162,  667,   87,   88,  108,  100,  101,  102,
+      112,  109,  653,   89,  103,  110,   90,  146,  147,   91,
+      629,  111,   92,  106,  113,   93,  163,  107,   99,  583,
+      114,  115,   88,  108,  100,  101,  102,  112,  109,  121,
+       89,  103,  110,   90,  146,  147,   91,  116,  111,   92,
+      122,  113,   93,  163,  167,  117,  123,  114,  115,  118,
+      168,  124,  119,  120,  158,  125,  121,  171,  141,  126,
+      142,  178,  159,  143,  116,  127,  508,  122,  409,  188,
+      281,  167,  117,  123,  154,  189,  118,  168,  124,  119,
+      120,  158,  125,  153,  171,  141,  126,  142,  178,  159,
+
+      143,  160,  127,  128,  161,  129,  188,  169,  130,  151,
+      149,  131,  189,  132,  170,  133,  134,   56,   56,   56,
+       56,   56,   56,   56,   56,   56,   56,   62,  160,  176,
+      128,  161,  129,  190,  169,  130,  164,  165,  131,  177,
+      132,  170,  133,  134,  135,  172,  173,  174,  136,  175,
+      166,  137,  138,  193,  179,  199,  176,  200,  139,  180,
+      190,  140,   61,  164,  165,   52,  177,  693,   50,   50,
+      693,  135,  172,  173,  174,  136,  175,  166,  137,  138,
+      193,  179,  199,  693,  200,  139,  180,  693,  140,  155,
+      155,  155,  155,  155,  155,  155,  155,  155,  155,   57,
+
+       58,   58,   58,   58,   58,   58,   58,   58,   58,   58,
+      181,  201,  182,  186,  187,  183,  191,  192,  194,  202,
+      195,  184,  204,  205,  196,  203,  206,  207,  185,  208,
+      210,  197,  209,  211,  212,  198,  213,  181,  201,  182,
+      186,  187,  183,  191,  192,  194,  202,  195,  184,  204,
+      205,  196,  203,  206,  207,  185,  208,  210,  197,  209,
+      211,  212,  198,  213,  214,  218,  219,  220,  221,  222,
+      224,  223,  225,  227,  215,  228,  229,  230,  231,  216,
+      217,  232,  233,  226,  234,  235,  236,  237,  238,  239,
+      240,  214,  218,  219,  220,  221,  222,  224,  223,  225,
+
+      227,  215,  228,  229,  230,  231,  216,  217,  232,  233,
+      226,  234,  235,  236,  237,  238,  239,  240,  241,  243,
+      244,  248,  242,  249,  251,  245,  252,  255,  257,  258,
+      259,  260,  261,  246,  250,  253,  693,  264,  247,  265,
+      266,  256,  693,  254,  693,  241,  243,  244,  248,  242,
+      249,  251,  245,  252,  255,  257,  258,  259,  260,  261,
+      246,  250,  253,  262,  264,  247,  265,  266,  256,  267,
+      254,  269,  272,  273,  263,  276,  274,  278,  270,  279,
+      280,  271,  275,  282,  283,  284,  285,  286,  277,  268,
+      262,  693,  693,  693,  693,  693,  267,  693,  269,  272,
+
+      273,  263,  276,  274,  278,  270,  279,  280,  271,  275,
+      282,  283,  284,  285,  286,  277,  268,  155,  155,  155,
+      155,  155,  155,  155,  155,  155,  155,  287,  288,  289,
+      290,  291,  292,  295,  293,  296,  297,  298,  299,  300,
+      301,  302,  303,  304,  305,  306,  307,  693,  310,  294,
+      311,  312,  313,  314,  287,  288,  289,  290,  291,  292,
+      295,  293,  296,  297,  298,  299,  300,  301,  302,  303,
+      304,  305,  306,  307,  308,  310,  294,  311,  312,  313,
+      314,  315,  316,  317,  318,  319,  320,  321,  322,  309,
+      323,  324,  325,  326,  327,  329,  330,  331,  332,  333,
+
+      334,  308,  328,  335,  336,  337,  338,  339,  315,  316,
+      317,  318,  319,  320,  321,  322,  309,  323,  324,  325,
+      326,  327,  329,  330,  331,  332,  333,  334,  340,  328,
+      335,  336,  337,  338,  339,  341,  342,  344,  345,  346,
+      347,  348,  349,  350,  352,  353,  343,  354,  355,  356,
+      357,  358,  359,  351,  360,  340,  361,  362,  363,  366,
+      693,  369,  341,  342,  344,  345,  346,  347,  348,  349,
+      350,  352,  353,  343,  354,  355,  356,  357,  358,  359,
+      351,  360,  364,  361,  362,  363,  366,  367,  369,  370,
+      371,  372,  373,  374,  375,  376,  377,  378,  379,  380,
+
+      368,  365,  381,  382,  383,  384,  385,  386,  387,  364,
+      388,  389,  390,  391,  367,  392,  370,  371,  372,  373,
+      374,  375,  376,  377,  378,  379,  380,  368,  365,  381,
+      382,  383,  384,  385,  386,  387,  393,  388,  389,  390,
+      391,  395,  392,  398,  396,  394,  397,  399,  400,  401,
+      402,  403,  404,  405,  407,  408,  410,  406,  411,  412,
+      413,  414,  415,  393,  416,  417,  418,  419,  395,  420,
+      398,  396,  394,  397,  399,  400,  401,  402,  403,  404,
+      405,  407,  408,  410,  406,  411,  412,  413,  414,  415,
+      421,  416,  417,  418,  419,  422,  420,  423,  424,  425,
+
       426,  427,  428,  429,  430,  431,  432,  433,  434,  435,
-      436,  437,  438,  439,  440,  441,  448,  442,  443,  444,
-      445,  449,  446,  447,  450,  451,  452,  453,  454,  455,
-      456,  457,  459,  460,  461,  462,  463,  464,  465,  466,
-      467,  468,  458,  448,  469,  470,  471,  472,  449,  473,
-      474,  450,  451,  452,  453,  454,  455,  456,  457,  459,
-      460,  461,  462,  463,  464,  465,  466,  467,  468,  458,
-      475,  469,  470,  471,  472,  476,  473,  474,  477,  478,
-
-      479,  480,  481,  482,  483,  484,  485,  486,  487,  488,
-      489,  490,  491,  492,  493,  494,  495,  475,  496,  497,
-      498,  499,  476,  500,  501,  477,  478,  479,  480,  481,
+      436,  437,  438,  439,  440,  441,  442,  421,  443,  444,
+      445,  446,  422,  447,  423,  424,  425,  426,  427,  428,
+      429,  430,  431,  432,  433,  434,  435,  436,  437,  438,
+      439,  440,  441,  442,  448,  443,  444,  445,  446,  449,
+      447,  450,  451,  452,  453,  454,  455,  456,  457,  458,
+      460,  461,  462,  463,  464,  465,  466,  467,  468,  469,
+      459,  448,  470,  471,  472,  473,  449,  474,  450,  451,
+      452,  453,  454,  455,  456,  457,  458,  460,  461,  462,
+      463,  464,  465,  466,  467,  468,  469,  459,  475,  470,
+
+      471,  472,  473,  476,  474,  477,  478,  479,  480,  481,
       482,  483,  484,  485,  486,  487,  488,  489,  490,  491,
-      492,  493,  494,  495,  502,  496,  497,  498,  499,  503,
-      500,  501,  504,  505,  506,  508,  509,  510,  511,  512,
-      513,  514,  515,  516,  517,  518,  519,  520,  521,  522,
-      523,  502,  524,  525,  526,  527,  503,  528,  529,  504,
-      505,  506,  508,  509,  510,  511,  512,  513,  514,  515,
-      516,  517,  518,  519,  520,  521,  522,  523,  530,  524,
-
-      525,  526,  527,  531,  528,  529,  532,  533,  534,  535,
-      536,  537,  538,  539,  540,  541,  542,  543,  544,  545,
-      547,  548,  546,  549,  550,  530,  551,  552,  553,  554,
-      531,  555,  556,  532,  533,  534,  535,  536,  537,  538,
-      539,  540,  541,  542,  543,  544,  545,  547,  548,  546,
-      549,  550,  557,  551,  552,  553,  554,  558,  555,  556,
-      559,  560,  561,  562,  563,  564,  565,  566,  567,  568,
-      569,  570,  571,  572,  573,  574,  575,  576,  577,  557,
-      578,  579,  580,  581,  558,  583,  584,  559,  560,  561,
+      492,  493,  494,  495,  496,  475,  497,  498,  499,  500,
+      476,  501,  477,  478,  479,  480,  481,  482,  483,  484,
+      485,  486,  487,  488,  489,  490,  491,  492,  493,  494,
+      495,  496,  502,  497,  498,  499,  500,  503,  501,  504,
+      505,  506,  507,  509,  510,  511,  512,  513,  514,  515,
+      516,  517,  518,  519,  520,  521,  522,  523,  524,  502,
+      525,  526,  527,  528,  503,  529,  504,  505,  506,  507,
+      509,  510,  511,  512,  513,  514,  515,  516,  517,  518,
+
+      519,  520,  521,  522,  523,  524,  530,  525,  526,  527,
+      528,  531,  529,  532,  533,  534,  535,  536,  537,  538,
+      539,  540,  541,  542,  543,  544,  545,  546,  548,  549,
+      547,  550,  551,  530,  552,  553,  554,  555,  531,  556,
+      532,  533,  534,  535,  536,  537,  538,  539,  540,  541,
+      542,  543,  544,  545,  546,  548,  549,  547,  550,  551,
+      557,  552,  553,  554,  555,  558,  556,  559,  560,  561,
       562,  563,  564,  565,  566,  567,  568,  569,  570,  571,
+      572,  573,  574,  575,  576,  577,  578,  557,  579,  580,
+      581,  582,  558,  584,  559,  560,  561,  562,  563,  564,
 
-      572,  573,  574,  575,  576,  577,  585,  578,  579,  580,
-      581,  586,  583,  584,  587,  588,  589,  590,  591,  592,
-      593,  594,  595,  596,  597,  598,  599,  600,  601,  602,
-      603,  604,  605,  585,  606,  607,  608,  609,  586,  610,
-      611,  587,  588,  589,  590,  591,  592,  593,  594,  595,
+      565,  566,  567,  568,  569,  570,  571,  572,  573,  574,
+      575,  576,  577,  578,  585,  579,  580,  581,  582,  586,
+      584,  587,  588,  589,  590,  591,  592,  593,  594,  595,
       596,  597,  598,  599,  600,  601,  602,  603,  604,  605,
-      612,  606,  607,  608,  609,  613,  610,  611,  614,  615,
-      616,  617,  618,  619,  620,  621,  622,  623,  624,  625,
-      626,  627,  629,  631,  632,  633,  634,  612,  635,  636,
-      637,  638,  613,  639,  640,  614,  615,  616,  617,  618,
-
-      619,  620,  621,  622,  623,  624,  625,  626,  627,  629,
-      631,  632,  633,  634,  641,  635,  636,  637,  638,  642,
-      639,  640,  643,  644,  645,  646,  647,  648,  649,  650,
-      651,  653,  630,  630,  655,  656,  657,  658,  659,  660,
-      661,  641,  662,  692,  663,  664,  642,  665,  668,  643,
-      644,  645,  646,  647,  648,  649,  650,  651,  653,  669,
-      670,  655,  656,  657,  658,  659,  660,  661,  671,  662,
-      654,  663,  664,  672,  665,  668,  667,  667,  675,  676,
-      678,  680,  682,  684,  686,  688,  669,  670,  692,  692,
-      692,  692,  692,  692,  692,  671,  692,  654,  692,  692,
-
-      672,  692,  692,  692,  692,  675,  676,  678,  680,  682,
-      684,  686,  688,  692,  692,  692,  692,  692,  674,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  674,   46,   46,   46,   46,
-       46,   48,   48,   48,   48,   48,   52,  692,  692,   52,
-       52,  149,  149,  149,  692,  149,  151,  692,  151,  151,
-      151,    7,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692
+      606,  585,  607,  608,  609,  610,  586,  611,  587,  588,
+      589,  590,  591,  592,  593,  594,  595,  596,  597,  598,
+      599,  600,  601,  602,  603,  604,  605,  606,  612,  607,
+      608,  609,  610,  613,  611,  614,  615,  616,  617,  618,
+      619,  620,  621,  622,  623,  624,  625,  626,  627,  628,
+      630,  632,  633,  634,  635,  612,  636,  637,  638,  639,
+
+      613,  640,  614,  615,  616,  617,  618,  619,  620,  621,
+      622,  623,  624,  625,  626,  627,  628,  630,  632,  633,
+      634,  635,  641,  636,  637,  638,  639,  642,  640,  643,
+      644,  645,  646,  647,  648,  649,  650,  651,  652,  654,
+      631,  631,  656,  657,  658,  659,  660,  661,  662,  641,
+      663,  693,  664,  665,  642,  666,  643,  644,  645,  646,
+      647,  648,  649,  650,  651,  652,  654,  669,  670,  656,
+      657,  658,  659,  660,  661,  662,  671,  663,  655,  664,
+      665,  672,  666,  673,  668,  668,  676,  677,  679,  681,
+      683,  685,  687,  689,  669,  670,  693,  693,  693,  693,
+
+      693,  693,  693,  671,  693,  655,  693,  693,  672,  693,
+      673,  693,  693,  676,  677,  679,  681,  683,  685,  687,
+      689,  693,  693,  693,  693,  693,  675,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  675,   46,   46,   46,   46,   46,   46,
+       49,   49,   49,   49,   49,   49,   53,  693,  693,   53,
+       53,  150,  150,  150,  693,  150,  152,  693,  152,  152,
+      152,  152,    7,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693
     } ;
 
-static const flex_int16_t yy_chk[1549] =
+static const flex_int16_t yy_chk[1561] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -1052,169 +1053,170 @@ static const flex_int16_t yy_chk[1549] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    9,    9,   10,   10,
-       15,   16,   16,   16,   16,   16,   16,   16,   16,   16,
-       16,   15,   17,   17,   17,   17,   17,   17,   17,   17,
-
-       17,   17,   17,   18,   18,   21,   22,   21,   27,   28,
-       22,   23,   30,   21,   27,   21,   22,   28,   23,   21,
-       21,   31,   41,   28,   41,   23,   22,   41,   23,  696,
-       44,   23,   21,   22,   21,   27,   28,   22,   23,   30,
-       21,   27,   21,   22,   28,   23,   21,   21,   31,   41,
-       28,   41,   23,   22,   41,   23,   24,   44,   23,   25,
-       24,   25,   50,   50,   24,   32,   25,   63,   33,   32,
-       24,   25,   33,   24,  690,   32,  590,  590,   33,   43,
-       43,   64,  689,   24,  653,  653,   25,   24,   25,  687,
-       34,   24,   32,   25,   63,   33,   32,   24,   25,   33,
-
-       24,   26,   32,   36,   34,   33,   43,   43,   64,   26,
-       34,   34,   26,   67,   36,   26,   29,   34,   26,  685,
-       36,   26,   29,   29,   29,   42,   68,  683,   26,   29,
-       36,   34,  681,   42,  679,  677,   26,   34,   34,   26,
-       67,   36,   26,   29,   70,   26,   35,   36,   26,   29,
-       29,   29,   42,   68,   35,   38,   29,   65,   35,   38,
-       42,   35,   35,   38,   66,   65,   71,   66,   74,   38,
-      673,   70,  666,   35,   77,  652,   80,   80,  628,   81,
-      582,   35,   38,  507,   65,   35,   38,  408,   35,   35,
-       38,   66,   65,   71,   66,   74,   38,   39,   82,   39,
-
-       83,   77,   39,   80,   80,   39,   81,   39,  280,   39,
-       39,   55,   55,   55,   55,   55,   55,   55,   55,   55,
-       55,   69,   69,   73,   39,   82,   39,   83,  153,   39,
-       73,   85,   39,   87,   39,   69,   39,   39,   40,   75,
-       75,   75,   40,   75,   76,   40,   40,   88,   69,   69,
-       73,   89,   40,   91,   76,   40,   54,   73,   85,   52,
-       87,   47,   69,   45,   20,   40,   75,   75,   75,   40,
-       75,   76,   40,   40,   88,   19,   11,    7,   89,   40,
-       91,   76,   40,   56,   56,   56,   56,   56,   56,   56,
-       56,   56,   56,   57,   57,   57,   57,   57,   57,   57,
-
-       57,   57,   57,   57,   78,   79,   92,   79,   90,   78,
-       79,   84,   84,   86,   90,   86,   79,   93,   94,   86,
-       96,   95,   97,   79,   95,   99,   86,  100,    6,  102,
-       86,   78,   79,   92,   79,   90,   78,   79,   84,   84,
-       86,   90,   86,   79,   93,   94,   86,   96,   95,   97,
-       79,   95,   99,   86,  100,  101,  102,   86,  103,  104,
-      105,  106,  107,  106,  107,  101,  108,  109,  110,  111,
-      101,  101,  113,  112,  114,  107,  112,  115,  117,  118,
-      119,  120,  101,  121,  123,  103,  104,  105,  106,  107,
-      106,  107,  101,  108,  109,  110,  111,  101,  101,  113,
-
-      112,  114,  107,  112,  115,  117,  118,  119,  120,  122,
-      121,  123,  124,  122,  125,  126,  127,  124,  128,  129,
-      130,  131,  132,  133,  134,  124,  126,  128,    5,  136,
-      124,  137,  138,  129,    4,  128,  122,  141,  142,  124,
-      122,  125,  126,  127,  124,  128,  129,  130,  131,  132,
-      133,  134,  124,  126,  128,  135,  136,  124,  137,  138,
-      129,  139,  128,  140,  141,  142,  135,  144,  143,  145,
-      140,  146,  147,  140,  143,  156,  158,  159,  161,  163,
-      144,  139,  135,    3,    0,    0,    0,    0,  139,    0,
-      140,    0,  164,  135,  144,  143,  145,  140,  146,  147,
-
-      140,  143,  156,  158,  159,  161,  163,  144,  139,  154,
-      154,  154,  154,  154,  154,  154,  154,  154,  154,  164,
-      165,  166,  167,  168,  169,  170,  169,  171,  172,  173,
-      174,  175,  176,  177,  178,  179,  180,  181,  182,    0,
-      184,  169,  185,  186,  187,  188,  189,  165,  166,  167,
-      168,  169,  170,  169,  171,  172,  173,  174,  175,  176,
-      177,  178,  179,  180,  181,  182,  183,  184,  169,  185,
-      186,  187,  188,  189,  190,  192,  193,  194,  195,  196,
-      197,  183,  198,  199,  200,  201,  202,  203,  204,  205,
-      206,  207,  208,  183,  202,  209,  210,  211,  212,  213,
-
-      214,  190,  192,  193,  194,  195,  196,  197,  183,  198,
+        1,    1,    1,    1,    1,    1,    1,    3,    4,    9,
+        9,   10,   10,   15,   16,   16,   16,   16,   16,   16,
+       16,   16,   16,   16,   15,   17,   17,   17,   17,   17,
+
+       17,   17,   17,   17,   17,   17,   18,   18,   22,   23,
+       30,   27,   22,   31,   44,  697,   23,   27,   22,   51,
+       51,  591,  591,   23,  654,  654,   23,  691,   22,   23,
+      690,  688,  686,  684,   42,   22,   23,   30,   27,   22,
+       31,   44,   42,   23,   27,   22,   64,    3,    4,   21,
+       23,   21,   28,   23,   24,   22,   23,   21,   24,   21,
+       28,   42,   24,   21,   21,   25,   28,   25,   24,   42,
+       65,   24,   25,   64,  682,   68,   21,   25,   21,   28,
+      680,   24,  678,  674,   21,   24,   21,   28,  667,   24,
+       21,   21,   25,   28,   25,   24,   32,   65,   24,   25,
+
+       32,   29,   68,  653,   25,   26,   32,   29,   29,   29,
+       34,   33,  629,   26,   29,   33,   26,   43,   43,   26,
+      583,   33,   26,   32,   34,   26,   69,   32,   29,  508,
+       34,   34,   26,   32,   29,   29,   29,   34,   33,   36,
+       26,   29,   33,   26,   43,   43,   26,   35,   33,   26,
+       36,   34,   26,   69,   71,   35,   36,   34,   34,   35,
+       72,   38,   35,   35,   66,   38,   36,   75,   41,   38,
+       41,   78,   66,   41,   35,   38,  409,   36,  281,   82,
+      154,   71,   35,   36,   55,   83,   35,   72,   38,   35,
+       35,   66,   38,   53,   75,   41,   38,   41,   78,   66,
+
+       41,   67,   38,   39,   67,   39,   82,   74,   39,   47,
+       45,   39,   83,   39,   74,   39,   39,   56,   56,   56,
+       56,   56,   56,   56,   56,   56,   56,   20,   67,   77,
+       39,   67,   39,   84,   74,   39,   70,   70,   39,   77,
+       39,   74,   39,   39,   40,   76,   76,   76,   40,   76,
+       70,   40,   40,   86,   79,   88,   77,   89,   40,   79,
+       84,   40,   19,   70,   70,   11,   77,    7,    6,    5,
+        0,   40,   76,   76,   76,   40,   76,   70,   40,   40,
+       86,   79,   88,    0,   89,   40,   79,    0,   40,   57,
+       57,   57,   57,   57,   57,   57,   57,   57,   57,   58,
+
+       58,   58,   58,   58,   58,   58,   58,   58,   58,   58,
+       80,   90,   80,   81,   81,   80,   85,   85,   87,   91,
+       87,   80,   92,   93,   87,   91,   94,   95,   80,   96,
+       97,   87,   96,   98,  100,   87,  101,   80,   90,   80,
+       81,   81,   80,   85,   85,   87,   91,   87,   80,   92,
+       93,   87,   91,   94,   95,   80,   96,   97,   87,   96,
+       98,  100,   87,  101,  102,  103,  104,  105,  106,  107,
+      108,  107,  108,  109,  102,  110,  111,  112,  113,  102,
+      102,  113,  114,  108,  115,  116,  118,  119,  120,  121,
+      122,  102,  103,  104,  105,  106,  107,  108,  107,  108,
+
+      109,  102,  110,  111,  112,  113,  102,  102,  113,  114,
+      108,  115,  116,  118,  119,  120,  121,  122,  123,  124,
+      125,  126,  123,  127,  128,  125,  129,  130,  131,  132,
+      133,  134,  135,  125,  127,  129,    0,  137,  125,  138,
+      139,  130,    0,  129,    0,  123,  124,  125,  126,  123,
+      127,  128,  125,  129,  130,  131,  132,  133,  134,  135,
+      125,  127,  129,  136,  137,  125,  138,  139,  130,  140,
+      129,  141,  142,  143,  136,  145,  144,  146,  141,  147,
+      148,  141,  144,  157,  159,  160,  162,  164,  145,  140,
+      136,    0,    0,    0,    0,    0,  140,    0,  141,  142,
+
+      143,  136,  145,  144,  146,  141,  147,  148,  141,  144,
+      157,  159,  160,  162,  164,  145,  140,  155,  155,  155,
+      155,  155,  155,  155,  155,  155,  155,  165,  166,  167,
+      168,  169,  170,  171,  170,  172,  173,  174,  175,  176,
+      177,  178,  179,  180,  181,  182,  183,    0,  185,  170,
+      186,  187,  188,  189,  165,  166,  167,  168,  169,  170,
+      171,  170,  172,  173,  174,  175,  176,  177,  178,  179,
+      180,  181,  182,  183,  184,  185,  170,  186,  187,  188,
+      189,  190,  191,  193,  194,  195,  196,  197,  198,  184,
       199,  200,  201,  202,  203,  204,  205,  206,  207,  208,
-      215,  202,  209,  210,  211,  212,  213,  214,  216,  217,
-      218,  220,  221,  222,  223,  224,  225,  226,  216,  227,
-      228,  229,  231,  232,  233,  224,  234,  215,  235,  236,
-      237,  239,    0,  241,  242,  216,  217,  218,  220,  221,
-      222,  223,  224,  225,  226,  216,  227,  228,  229,  231,
-      232,  233,  224,  234,  238,  235,  236,  237,  239,  240,
-      241,  242,  243,  244,  245,  246,  247,  248,  249,  250,
-      251,  252,  240,  238,  254,  255,  256,  257,  258,  259,
-
-      260,  238,  261,  262,  263,  264,  240,  266,  268,  243,
-      244,  245,  246,  247,  248,  249,  250,  251,  252,  240,
-      238,  254,  255,  256,  257,  258,  259,  260,  267,  261,
-      262,  263,  264,  270,  266,  268,  269,  267,  269,  271,
-      272,  273,  274,  275,  276,  277,  278,  279,  281,  277,
-      282,  283,  284,  285,  286,  267,  287,  288,  289,  291,
-      270,  294,  295,  269,  267,  269,  271,  272,  273,  274,
-      275,  276,  277,  278,  279,  281,  277,  282,  283,  284,
-      285,  286,  296,  287,  288,  289,  291,  297,  294,  295,
-      299,  300,  301,  302,  304,  305,  306,  307,  308,  309,
-
-      310,  311,  312,  315,  316,  317,  318,  319,  320,  296,
-      321,  322,  324,  325,  297,  326,  327,  299,  300,  301,
-      302,  304,  305,  306,  307,  308,  309,  310,  311,  312,
-      315,  316,  317,  318,  319,  320,  330,  321,  322,  324,
-      325,  331,  326,  327,  333,  335,  336,  337,  338,  339,
-      340,  341,  343,  347,  349,  350,  352,  353,  353,  354,
-      355,  356,  341,  330,  358,  359,  360,  361,  331,  363,
-      364,  333,  335,  336,  337,  338,  339,  340,  341,  343,
-      347,  349,  350,  352,  353,  353,  354,  355,  356,  341,
-      366,  358,  359,  360,  361,  367,  363,  364,  368,  369,
-
-      371,  372,  373,  374,  375,  377,  378,  379,  380,  383,
-      384,  385,  386,  387,  390,  391,  393,  366,  394,  395,
-      396,  397,  367,  398,  399,  368,  369,  371,  372,  373,
-      374,  375,  377,  378,  379,  380,  383,  384,  385,  386,
-      387,  390,  391,  393,  400,  394,  395,  396,  397,  401,
-      398,  399,  403,  405,  407,  411,  413,  415,  416,  417,
-      418,  419,  420,  421,  422,  423,  425,  426,  427,  428,
-      429,  400,  430,  432,  433,  434,  401,  435,  436,  403,
-      405,  407,  411,  413,  415,  416,  417,  418,  419,  420,
-      421,  422,  423,  425,  426,  427,  428,  429,  437,  430,
-
-      432,  433,  434,  438,  435,  436,  439,  440,  441,  442,
-      445,  446,  447,  448,  449,  450,  453,  456,  457,  458,
-      459,  462,  458,  465,  466,  437,  467,  468,  469,  470,
-      438,  473,  474,  439,  440,  441,  442,  445,  446,  447,
-      448,  449,  450,  453,  456,  457,  458,  459,  462,  458,
-      465,  466,  475,  467,  468,  469,  470,  476,  473,  474,
-      477,  479,  480,  481,  483,  484,  485,  486,  488,  489,
-      490,  491,  492,  493,  494,  495,  496,  498,  499,  475,
-      500,  502,  503,  504,  476,  508,  510,  477,  479,  480,
-      481,  483,  484,  485,  486,  488,  489,  490,  491,  492,
-
-      493,  494,  495,  496,  498,  499,  512,  500,  502,  503,
-      504,  513,  508,  510,  514,  515,  517,  519,  520,  521,
-      522,  523,  525,  527,  529,  532,  534,  535,  536,  537,
-      544,  545,  546,  512,  549,  551,  553,  555,  513,  556,
-      557,  514,  515,  517,  519,  520,  521,  522,  523,  525,
-      527,  529,  532,  534,  535,  536,  537,  544,  545,  546,
-      558,  549,  551,  553,  555,  559,  556,  557,  560,  562,
-      563,  564,  565,  567,  569,  571,  572,  573,  574,  575,
-      580,  581,  587,  591,  592,  595,  596,  558,  597,  601,
-      604,  605,  559,  608,  609,  560,  562,  563,  564,  565,
-
-      567,  569,  571,  572,  573,  574,  575,  580,  581,  587,
-      591,  592,  595,  596,  610,  597,  601,  604,  605,  611,
-      608,  609,  614,  615,  616,  619,  621,  622,  623,  624,
-      625,  629,  630,  630,  632,  636,  637,  640,  641,  642,
-      643,  610,  647,    0,  648,  649,  611,  651,  654,  614,
-      615,  616,  619,  621,  622,  623,  624,  625,  629,  655,
-      658,  632,  636,  637,  640,  641,  642,  643,  661,  647,
-      630,  648,  649,  664,  651,  654,  667,  667,  668,  672,
-      674,  678,  680,  682,  684,  686,  655,  658,    0,    0,
-        0,    0,    0,    0,    0,  661,    0,  630,    0,    0,
-
-      664,    0,    0,    0,    0,  668,  672,  674,  678,  680,
-      682,  684,  686,    0,    0,    0,    0,    0,  667,    0,
+
+      209,  184,  203,  210,  211,  212,  213,  214,  190,  191,
+      193,  194,  195,  196,  197,  198,  184,  199,  200,  201,
+      202,  203,  204,  205,  206,  207,  208,  209,  215,  203,
+      210,  211,  212,  213,  214,  216,  217,  218,  219,  221,
+      222,  223,  224,  225,  226,  227,  217,  228,  229,  230,
+      232,  233,  234,  225,  235,  215,  236,  237,  238,  240,
+        0,  242,  216,  217,  218,  219,  221,  222,  223,  224,
+      225,  226,  227,  217,  228,  229,  230,  232,  233,  234,
+      225,  235,  239,  236,  237,  238,  240,  241,  242,  243,
+      244,  245,  246,  247,  248,  249,  250,  251,  252,  253,
+
+      241,  239,  255,  256,  257,  258,  259,  260,  261,  239,
+      262,  263,  264,  265,  241,  267,  243,  244,  245,  246,
+      247,  248,  249,  250,  251,  252,  253,  241,  239,  255,
+      256,  257,  258,  259,  260,  261,  268,  262,  263,  264,
+      265,  269,  267,  271,  270,  268,  270,  272,  273,  274,
+      275,  276,  277,  278,  279,  280,  282,  278,  283,  284,
+      285,  286,  287,  268,  288,  289,  290,  292,  269,  295,
+      271,  270,  268,  270,  272,  273,  274,  275,  276,  277,
+      278,  279,  280,  282,  278,  283,  284,  285,  286,  287,
+      296,  288,  289,  290,  292,  297,  295,  298,  300,  301,
+
+      302,  303,  305,  306,  307,  308,  309,  310,  311,  312,
+      313,  316,  317,  318,  319,  320,  321,  296,  322,  323,
+      325,  326,  297,  327,  298,  300,  301,  302,  303,  305,
+      306,  307,  308,  309,  310,  311,  312,  313,  316,  317,
+      318,  319,  320,  321,  328,  322,  323,  325,  326,  331,
+      327,  332,  334,  336,  337,  338,  339,  340,  341,  342,
+      344,  348,  350,  351,  353,  354,  354,  355,  356,  357,
+      342,  328,  359,  360,  361,  362,  331,  364,  332,  334,
+      336,  337,  338,  339,  340,  341,  342,  344,  348,  350,
+      351,  353,  354,  354,  355,  356,  357,  342,  365,  359,
+
+      360,  361,  362,  367,  364,  368,  369,  370,  372,  373,
+      374,  375,  376,  378,  379,  380,  381,  384,  385,  386,
+      387,  388,  391,  392,  394,  365,  395,  396,  397,  398,
+      367,  399,  368,  369,  370,  372,  373,  374,  375,  376,
+      378,  379,  380,  381,  384,  385,  386,  387,  388,  391,
+      392,  394,  400,  395,  396,  397,  398,  401,  399,  402,
+      404,  406,  408,  412,  414,  416,  417,  418,  419,  420,
+      421,  422,  423,  424,  426,  427,  428,  429,  430,  400,
+      431,  433,  434,  435,  401,  436,  402,  404,  406,  408,
+      412,  414,  416,  417,  418,  419,  420,  421,  422,  423,
+
+      424,  426,  427,  428,  429,  430,  437,  431,  433,  434,
+      435,  438,  436,  439,  440,  441,  442,  443,  446,  447,
+      448,  449,  450,  451,  454,  457,  458,  459,  460,  463,
+      459,  466,  467,  437,  468,  469,  470,  471,  438,  474,
+      439,  440,  441,  442,  443,  446,  447,  448,  449,  450,
+      451,  454,  457,  458,  459,  460,  463,  459,  466,  467,
+      475,  468,  469,  470,  471,  476,  474,  477,  478,  480,
+      481,  482,  484,  485,  486,  487,  489,  490,  491,  492,
+      493,  494,  495,  496,  497,  499,  500,  475,  501,  503,
+      504,  505,  476,  509,  477,  478,  480,  481,  482,  484,
+
+      485,  486,  487,  489,  490,  491,  492,  493,  494,  495,
+      496,  497,  499,  500,  511,  501,  503,  504,  505,  513,
+      509,  514,  515,  516,  518,  520,  521,  522,  523,  524,
+      526,  528,  530,  533,  535,  536,  537,  538,  545,  546,
+      547,  511,  550,  552,  554,  556,  513,  557,  514,  515,
+      516,  518,  520,  521,  522,  523,  524,  526,  528,  530,
+      533,  535,  536,  537,  538,  545,  546,  547,  558,  550,
+      552,  554,  556,  559,  557,  560,  561,  563,  564,  565,
+      566,  568,  570,  572,  573,  574,  575,  576,  581,  582,
+      588,  592,  593,  596,  597,  558,  598,  602,  605,  606,
+
+      559,  609,  560,  561,  563,  564,  565,  566,  568,  570,
+      572,  573,  574,  575,  576,  581,  582,  588,  592,  593,
+      596,  597,  610,  598,  602,  605,  606,  611,  609,  612,
+      615,  616,  617,  620,  622,  623,  624,  625,  626,  630,
+      631,  631,  633,  637,  638,  641,  642,  643,  644,  610,
+      648,    0,  649,  650,  611,  652,  612,  615,  616,  617,
+      620,  622,  623,  624,  625,  626,  630,  655,  656,  633,
+      637,  638,  641,  642,  643,  644,  659,  648,  631,  649,
+      650,  662,  652,  665,  668,  668,  669,  673,  675,  679,
+      681,  683,  685,  687,  655,  656,    0,    0,    0,    0,
+
+        0,    0,    0,  659,    0,  631,    0,    0,  662,    0,
+      665,    0,    0,  669,  673,  675,  679,  681,  683,  685,
+      687,    0,    0,    0,    0,    0,  668,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,  667,  693,  693,  693,  693,
-      693,  694,  694,  694,  694,  694,  695,    0,    0,  695,
-      695,  697,  697,  697,    0,  697,  698,    0,  698,  698,
-      698,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692,  692,  692,
-      692,  692,  692,  692,  692,  692,  692,  692
+        0,    0,    0,  668,  694,  694,  694,  694,  694,  694,
+      695,  695,  695,  695,  695,  695,  696,    0,    0,  696,
+      696,  698,  698,  698,    0,  698,  699,    0,  699,  699,
+      699,  699,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
+      693,  693,  693,  693,  693,  693,  693,  693,  693,  693
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1248,7 +1250,7 @@ static const flex_int16_t yy_chk[1549] =
 
 static thread_local std::stringstream strbuf;
 
-#line 1252 "flex_lexer.cpp"
+#line 1254 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1262,7 +1264,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1266 "flex_lexer.cpp"
+#line 1268 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1549,7 +1551,7 @@ YY_DECL
 #line 60 "flex_lexer.l"
 
 
-#line 1553 "flex_lexer.cpp"
+#line 1555 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1576,13 +1578,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 693 )
+				if ( yy_current_state >= 694 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 692 );
+		while ( yy_current_state != 693 );
 		yy_cp = yyg->yy_last_accepting_cpos;
 		yy_current_state = yyg->yy_last_accepting_state;
 
@@ -2564,23 +2566,28 @@ YY_RULE_SETUP
 case 187:
 YY_RULE_SETUP
 #line 286 "flex_lexer.l"
+{ BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] String contains a null character\n"); return INVALID_TOKEN; }
+	YY_BREAK
+case 188:
+YY_RULE_SETUP
+#line 287 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 287 "flex_lexer.l"
+#line 288 "flex_lexer.l"
 { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return INVALID_TOKEN; }
 	YY_BREAK
-case 188:
+case 189:
 YY_RULE_SETUP
-#line 289 "flex_lexer.l"
+#line 290 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return INVALID_TOKEN; }
 	YY_BREAK
-case 189:
+case 190:
 YY_RULE_SETUP
-#line 291 "flex_lexer.l"
+#line 292 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2584 "flex_lexer.cpp"
+#line 2591 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(COMMENT):
 	yyterminate();
@@ -2872,7 +2879,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	for ( yy_cp = yyg->yytext_ptr + YY_MORE_ADJ; yy_cp < yyg->yy_c_buf_p; ++yy_cp )
 		{
-		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 1);
+		YY_CHAR yy_c = (*yy_cp ? yy_ec[YY_SC_TO_UI(*yy_cp)] : 77);
 		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
@@ -2881,7 +2888,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 693 )
+			if ( yy_current_state >= 694 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -2901,7 +2908,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner; /* This var may be unused depending upon options. */
 	char *yy_cp = yyg->yy_c_buf_p;
 
-	YY_CHAR yy_c = 1;
+	YY_CHAR yy_c = 77;
 	if ( yy_accept[yy_current_state] )
 		{
 		yyg->yy_last_accepting_state = yy_current_state;
@@ -2910,11 +2917,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 693 )
+		if ( yy_current_state >= 694 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 692);
+	yy_is_jam = (yy_current_state == 693);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -3737,7 +3744,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 291 "flex_lexer.l"
+#line 292 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index 1ce7b61..edc1b1c 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -730,7 +730,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 291 "flex_lexer.l"
+#line 292 "flex_lexer.l"
 
 
 #line 737 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 878450b..0191dec 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -269,7 +269,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
   return SQL_INTVAL;
 }
 
-\"[^\"\n]+\" {
+\"[^\"\n\0]+\" {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
   return SQL_IDENTIFIER;
@@ -282,7 +282,8 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
 \'                          { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 <singlequotedstring>\'\'    { strbuf << '\''; }
-<singlequotedstring>[^']*   { strbuf << yytext; }
+<singlequotedstring>[^'\0]* { strbuf << yytext; }
+<singlequotedstring>\0      { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] String contains a null character\n"); return INVALID_TOKEN; }
 <singlequotedstring>\'      { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 <singlequotedstring><<EOF>> { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return INVALID_TOKEN; }
 
-- 
2.43.0


From 015ed5e095a9563736bcefe59e2623e56c9782e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 07/25] fix: read integers as decimal numbers and reject those
 out of range

Leading zeros made them octal, and an integer out of range was returned as
the token whose code is the length of the error message ('J').
---
 src/parser/flex_lexer.cpp | 6 +++---
 src/parser/flex_lexer.l   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 75a8a09..750b0be 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -2522,10 +2522,10 @@ YY_RULE_SETUP
 #line 262 "flex_lexer.l"
 {
   errno = 0;
-  yylval->ival = strtoll(yytext, nullptr, 0);
+  yylval->ival = strtoll(yytext, nullptr, 10);
   if (errno) {
-    return fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
-    return 0;
+    fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?\n");
+    return INVALID_TOKEN;
   }
   return SQL_INTVAL;
 }
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 0191dec..1b31452 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -261,10 +261,10 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
 [0-9]+ {
   errno = 0;
-  yylval->ival = strtoll(yytext, nullptr, 0);
+  yylval->ival = strtoll(yytext, nullptr, 10);
   if (errno) {
-    return fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?");
-    return 0;
+    fprintf(stderr, "[SQL-Lexer-Error] Integer cannot be parsed - is it out of range?\n");
+    return INVALID_TOKEN;
   }
   return SQL_INTVAL;
 }
-- 
2.43.0


From 125e0036e276251f119bfc0c3b3996af00d77e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 08/25] fix: do not split words and numbers that start like a
 special token

CURRENT ROWS was read as CURRENT ROW and S, and -9223372036854775808.5 as the
smallest integer and .5.
---
 src/parser/flex_lexer.cpp | 627 ++++++++++++++++++++------------------
 src/parser/flex_lexer.h   |   2 +-
 src/parser/flex_lexer.l   |   5 +
 3 files changed, 335 insertions(+), 299 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 750b0be..03a4daa 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -573,8 +573,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 190
-#define YY_END_OF_BUFFER 191
+#define YY_NUM_RULES 193
+#define YY_END_OF_BUFFER 194
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -582,84 +582,84 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[694] =
+static const flex_int16_t yy_accept[697] =
     {   0,
-        0,    0,  186,  186,    2,    2,  191,  189,    4,    4,
-      189,  189,  177,  184,  177,  177,  181,  177,  177,  177,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  177,  186,  188,  187,    2,    3,
-        4,  172,    0,    1,    0,  179,  178,  181,  174,  173,
-      171,  175,  183,  183,  183,  183,  183,  183,   12,  183,
-      183,  183,   19,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,   73,  183,
-
-      183,   76,   85,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  103,  183,  183,  108,  111,  112,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  149,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  176,  186,
-      185,    2,  182,    0,  178,    5,  183,    7,  183,  183,
-       10,  183,   13,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,   34,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,   49,  183,  183,  183,  183,  183,  183,  183,  183,
-
-      183,  183,   60,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,   80,  183,  183,   88,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      104,  183,  183,  183,  109,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  135,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  150,  183,  183,  183,  183,
-      183,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-        0,  183,  183,  183,  183,  183,  183,  183,  183,  183,
-       20,  183,   22,   23,   24,  183,  183,  183,   29,  183,
-
-      183,  183,   32,   35,  183,  183,  183,  183,  183,   41,
-      183,  183,  183,   46,   47,  183,  183,  183,  183,  183,
-      183,  183,  183,   57,  183,  183,  183,  183,   63,   64,
-      183,  183,   68,  183,   70,   71,  183,  183,  183,  183,
-      183,  183,   84,  183,   87,   89,   90,  183,   92,  183,
-      183,   95,  183,  183,  183,  183,  183,  106,  183,  183,
-      183,  183,  115,  183,  183,  118,  183,  183,  183,  183,
-      123,  183,  183,  183,  183,  183,  129,  183,  183,  183,
-      183,  137,  138,  183,  183,  183,  183,  183,  145,  146,
-      147,  183,  152,  183,  183,  183,  183,  183,  183,  183,
-
-      183,  183,  162,  183,  164,  183,  166,  167,    0,    6,
-        8,  183,   11,  183,   15,  183,  183,  183,  183,  183,
-      183,  183,  183,  183,   31,  183,  183,  183,  183,  183,
-      183,   40,  183,  183,  183,  183,  183,  183,  183,  183,
-      183,  183,  183,   56,   58,  183,  183,  183,  183,   66,
-      183,   72,   74,  183,   77,   78,  183,  183,  183,  183,
-       91,   93,  183,   96,   97,  183,  100,  183,  183,  183,
-      183,  113,  114,  183,  183,  183,  183,  183,  122,  183,
-      183,  183,  127,  183,  183,  183,  183,  136,  183,  183,
-      183,  142,  183,  183,  183,  183,  183,  155,  183,  183,
-
-      183,  159,  183,  183,  183,  165,  168,    0,  183,   14,
-      183,   17,  183,  183,  183,   25,   27,  183,   30,  183,
-      183,  183,  183,  183,   39,  183,   43,  183,   45,  183,
-       50,   51,  183,   53,  183,  183,  183,  183,   62,   65,
-       67,   69,   75,   79,  183,  183,  183,   86,   94,   98,
-      101,  183,  105,  183,  110,  183,  183,  183,  183,  183,
-      183,  125,  183,  183,  130,  132,  134,  183,  140,  183,
-      143,  183,  183,  183,  183,  183,  156,  157,  158,  160,
-      183,  183,    0,    9,   16,   18,   21,  183,   26,   28,
-      183,  183,  183,   37,   38,  183,  183,  183,   52,   54,
-
-       55,  183,   61,   81,  183,  183,   99,  102,  183,  183,
-      183,  183,  120,  121,  183,  183,  183,  131,  133,  183,
-      141,  183,  183,  183,  183,  183,  161,  163,    0,  183,
-        0,   33,  183,   42,   44,   48,  183,  183,   83,  107,
-      183,  183,  183,  183,  126,  128,  139,  183,  183,  183,
-      153,  183,    0,  183,    0,  183,   59,   82,  183,  117,
-      119,  183,  144,  148,  183,  154,    0,    0,    0,   36,
-      116,  124,  183,    0,    0,  169,  151,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,  170,    0,
-        0,  180,    0
+        0,    0,  189,  189,    2,    2,  194,  192,    4,    4,
+      192,  192,  179,  187,  179,  179,  184,  179,  179,  179,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  179,  189,  191,  190,    2,    3,
+        4,  174,    0,    1,    0,  181,  180,  184,  176,  175,
+      173,  177,  186,  186,  186,  186,  186,  186,   12,  186,
+      186,  186,   19,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,   73,  186,
+
+      186,   76,   85,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  103,  186,  186,  108,  111,  112,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  149,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  178,  189,
+      188,    2,  185,    0,  180,    5,  186,    7,  186,  186,
+       10,  186,   13,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,   34,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,   49,  186,  186,  186,  186,  186,  186,  186,  186,
+
+      186,  186,   60,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,   80,  186,  186,   88,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      104,  186,  186,  186,  109,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  135,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  150,  186,  186,  186,  186,
+      186,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+        0,  186,  186,  186,  186,  186,  186,  186,  186,  186,
+       20,  186,   22,   23,   24,  186,  186,  186,   29,  186,
+
+      186,  186,   32,   35,  186,  186,  186,  186,  186,   41,
+      186,  186,  186,   46,   47,  186,  186,  186,  186,  186,
+      186,  186,  186,   57,  186,  186,  186,  186,   63,   64,
+      186,  186,   68,  186,   70,   71,  186,  186,  186,  186,
+      186,  186,   84,  186,   87,   89,   90,  186,   92,  186,
+      186,   95,  186,  186,  186,  186,  186,  106,  186,  186,
+      186,  186,  115,  186,  186,  118,  186,  186,  186,  186,
+      123,  186,  186,  186,  186,  186,  129,  186,  186,  186,
+      186,  137,  138,  186,  186,  186,  186,  186,  145,  146,
+      147,  186,  152,  186,  186,  186,  186,  186,  186,  186,
+
+      186,  186,  162,  186,  164,  186,  166,  167,    0,    6,
+        8,  186,   11,  186,   15,  186,  186,  186,  186,  186,
+      186,  186,  186,  186,   31,  186,  186,  186,  186,  186,
+      186,   40,  186,  186,  186,  186,  186,  186,  186,  186,
+      186,  186,  186,   56,   58,  186,  186,  186,  186,   66,
+      186,   72,   74,  186,   77,   78,  186,  186,  186,  186,
+       91,   93,  186,   96,   97,  186,  100,  186,  186,  186,
+      186,  113,  114,  186,  186,  186,  186,  186,  122,  186,
+      186,  186,  127,  186,  186,  186,  186,  136,  186,  186,
+      186,  142,  186,  186,  186,  186,  186,  155,  186,  186,
+
+      186,  159,  186,  186,  186,  165,  168,    0,  186,   14,
+      186,   17,  186,  186,  186,   25,   27,  186,   30,  186,
+      186,  186,  186,  186,   39,  186,   43,  186,   45,  186,
+       50,   51,  186,   53,  186,  186,  186,  186,   62,   65,
+       67,   69,   75,   79,  186,  186,  186,   86,   94,   98,
+      101,  186,  105,  186,  110,  186,  186,  186,  186,  186,
+      186,  125,  186,  186,  130,  132,  134,  186,  140,  186,
+      143,  186,  186,  186,  186,  186,  156,  157,  158,  160,
+      186,  186,    0,    9,   16,   18,   21,  186,   26,   28,
+      186,  186,  186,   37,   38,  186,  186,  186,   52,   54,
+
+       55,  186,   61,   81,  186,  186,   99,  102,  186,  186,
+      186,  186,  120,  121,  186,  186,  186,  131,  133,  186,
+      141,  186,  186,  186,  186,  186,  161,  163,    0,  186,
+        0,   33,  186,   42,   44,   48,  186,  186,   83,  107,
+      186,  186,  186,  186,  126,  128,  139,  186,  186,  186,
+      153,  186,    0,  186,    0,  186,   59,   82,  186,  117,
+      119,  186,  144,  148,  186,  154,    0,    0,    0,   36,
+      116,  124,  186,    0,    0,  169,  151,    0,    0,  171,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,  170,
+        0,  172,    0,  183,  182,    0
 
     } ;
 
@@ -707,14 +707,14 @@ static const YY_CHAR yy_meta[78] =
         5,    5,    5,    5,    5,    1,    6
     } ;
 
-static const flex_int16_t yy_base[700] =
+static const flex_int16_t yy_base[705] =
     {   0,
-        0,    0,   71,   72,  367,  366,  368, 1483,   78,   80,
-      345,    0, 1483, 1483,   76,   75,   87,   86,  342,  307,
+        0,    0,   71,   72,  381,  368,  370, 1483,   78,   80,
+      348,    0, 1483, 1483,   76,   75,   87,   86,  347,  345,
       124,   82,   87,  132,  132,  183,   78,  130,  174,   74,
        87,  170,  185,  188,  220,  217,    0,  239,  279,  322,
-      233,  112,  188,   88,  235,    0,  303, 1483,    0, 1483,
-      118, 1483,  289, 1483,  273,  308,  380,  391, 1483, 1483,
+      233,  112,  188,   88,  287,    0,  321, 1483,    0, 1483,
+      118, 1483,  306, 1483,  298,  308,  380,  391, 1483, 1483,
      1483, 1483,    0,  121,  129,  231,  279,  136,  202,  309,
       226,  224,    0,  274,  245,  312,  303,  232,  313,  388,
       374,  237,  249,  293,  392,  329,  394,  322,  324,  375,
@@ -725,7 +725,7 @@ static const flex_int16_t yy_base[700] =
       450,  468,  492,  484,  498,  493,  490,  495,  502,  505,
       498,  507,  491,  509,  509,  529,  511,  505,  503,  547,
       548,  547,  543,  543,  549,  551,  538,  558, 1483,    0,
-     1483,    0, 1483,  269,  608,    0,  557,    0,  558,  552,
+     1483,    0, 1483,  282,  608,    0,  557,    0,  558,  552,
         0,  564,    0,  551,  597,  584,  599,  597,  598,  608,
       594,  593,  602,  596,  592,  617,  600,  602,  616,  603,
       611,  615,  624,  648,  624,  624,  610,  629,  616,  655,
@@ -739,7 +739,7 @@ static const flex_int16_t yy_base[700] =
       771,  762,  773,    0,  763,  759,  767,  772,  765,  766,
       775,  773,  770,  777,  787,    0,  780,  810,  805,  808,
       807,  825,  813,  807,  826,  807,  811,  818,  825,  816,
-      266,  817,  819,  813,  814,  822,  827,  838,  830,  840,
+      272,  817,  819,  813,  814,  822,  827,  838,  830,  840,
         0,  845,    0,    0,  847,  856,  865,  858,    0,  857,
 
       859,  874,  860,    0,  869,  869,  862,  864,  884,  868,
@@ -753,7 +753,7 @@ static const flex_int16_t yy_base[700] =
       990,    0,    0,  984,  992,  989,  994,  985,    0,    0,
       982,  983,    0, 1000,  984,  992,  986, 1007,  990, 1024,
 
-     1031, 1030,    0, 1018,    0, 1035,    0, 1022,  264,    0,
+     1031, 1030,    0, 1018,    0, 1035,    0, 1022,  268,    0,
         0, 1016,    0, 1038,    0, 1039, 1025, 1045, 1043, 1045,
      1035, 1030, 1036, 1047,    0, 1039, 1045, 1040, 1055, 1045,
      1054,    0, 1051, 1041, 1048, 1059, 1076, 1085, 1072, 1073,
@@ -764,7 +764,7 @@ static const flex_int16_t yy_base[700] =
      1144, 1141,    0, 1150, 1151, 1149, 1134,    0, 1146, 1152,
      1156, 1139, 1141, 1140, 1160, 1161, 1149,    0, 1159, 1161,
 
-     1162,    0, 1149, 1168, 1169,    0,    0,  213, 1167,    0,
+     1162,    0, 1149, 1168, 1169,    0,    0,  262, 1167,    0,
      1179,    0, 1184, 1195, 1181, 1183,    0, 1191,    0, 1184,
      1192, 1203, 1195, 1188,    0, 1207,    0, 1207,    0, 1197,
         0,    0, 1207,    0, 1199, 1194, 1206, 1202,    0,    0,
@@ -772,101 +772,103 @@ static const flex_int16_t yy_base[700] =
         0, 1210,    0, 1222,    0, 1204, 1217, 1238, 1247, 1229,
      1241,    0, 1253, 1254, 1239, 1240,    0, 1246,    0, 1249,
         0, 1261, 1262, 1261, 1245, 1262,    0,    0,    0,    0,
-     1249, 1256,  209,    0,    0,    0,    0, 1264,    0,    0,
+     1249, 1256,  265,    0,    0,    0,    0, 1264,    0,    0,
       120, 1265, 1270,    0,    0, 1267, 1253, 1268,    0,    0,
 
         0, 1262,    0,    0, 1274, 1266,    0,    0, 1262, 1296,
      1291, 1294,    0,    0, 1306, 1290, 1300,    0,    0, 1292,
-        0, 1295, 1301, 1295, 1311, 1312,    0,    0,  203, 1300,
+        0, 1295, 1301, 1295, 1311, 1312,    0,    0,  220, 1300,
      1339,    0, 1301,    0,    0,    0, 1315, 1303,    0,    0,
      1306, 1311, 1319, 1322,    0,    0,    0, 1304, 1315, 1323,
-        0, 1330,  191,  123, 1331, 1342,    0,    0, 1336,    0,
-        0, 1341,    0,    0, 1347,    0,  173, 1383, 1342,    0,
-        0,    0, 1352,  166, 1366, 1483,    0,  168, 1350,  167,
-     1344,  158, 1361,  117, 1357,  118, 1365,  114, 1483,  121,
-      110, 1483, 1483, 1454, 1460, 1466,  111, 1471, 1476
+        0, 1330,  208,  123, 1331, 1342,    0,    0, 1336,    0,
+        0, 1341,    0,    0, 1347,    0,  197, 1383, 1342,    0,
+        0,    0, 1352,  186, 1366,    0,    0,  174, 1350, 1483,
+      170, 1344,  166, 1361,  164, 1357,  160, 1365,  116,    0,
+      123, 1483,  114, 1419, 1483, 1483, 1454, 1460, 1466,  126,
 
+     1471, 1476,  123,  111
     } ;
 
-static const flex_int16_t yy_def[700] =
+static const flex_int16_t yy_def[705] =
     {   0,
-      693,    1,  694,  694,  695,  695,  693,  693,  693,  693,
-      693,  696,  693,  693,  693,  693,  693,  693,  693,  693,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  693,  698,  693,  693,  699,  693,
-      693,  693,  696,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  693,  698,
-      693,  699,  693,  693,  693,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      693,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-
-      697,  697,  697,  697,  697,  697,  697,  697,  693,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-
-      697,  697,  697,  697,  697,  697,  697,  693,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  693,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  693,  697,
-      693,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  697,  697,  697,  697,
-      697,  697,  693,  697,  693,  697,  697,  697,  697,  697,
-      697,  697,  697,  697,  697,  697,  693,  693,  693,  697,
-      697,  697,  697,  693,  693,  693,  697,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,    0,  693,  693,  693,  693,  693,  693
-
+      696,    1,  697,  697,  698,  698,  696,  696,  696,  696,
+      696,  699,  696,  696,  696,  696,  696,  696,  696,  696,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  696,  701,  696,  696,  702,  696,
+      696,  696,  699,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  696,  701,
+      696,  702,  696,  696,  696,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      696,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+
+      700,  700,  700,  700,  700,  700,  700,  700,  696,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+
+      700,  700,  700,  700,  700,  700,  700,  696,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  696,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  696,  700,
+      696,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  700,  700,  700,  700,
+      700,  700,  696,  700,  696,  700,  700,  700,  700,  700,
+      700,  700,  700,  700,  700,  700,  696,  696,  696,  700,
+      700,  700,  700,  696,  696,  703,  700,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  704,
+      696,  696,  696,  696,  696,    0,  696,  696,  696,  696,
+
+      696,  696,  696,  696
     } ;
 
 static const flex_int16_t yy_nxt[1561] =
@@ -883,36 +885,36 @@ static const flex_int16_t yy_nxt[1561] =
        56,   56,   56,   56,   55,   57,   58,   58,   58,   58,
 
        58,   58,   58,   58,   58,   58,   59,   60,   70,   74,
-      104,   94,   71,  105,  148,   63,   75,   95,   72,   51,
-       51,  631,  631,   76,  668,  668,   77,  692,   73,   78,
-      691,  690,  688,  686,  144,   70,   74,  104,   94,   71,
+      104,   94,   71,  105,  148,  692,   75,   95,   72,   51,
+       51,  631,  631,   76,  668,  668,   77,  680,   73,   78,
+       63,  694,  693,  691,  144,   70,   74,  104,   94,   71,
       105,  148,  145,   75,   95,   72,  156,   48,   48,   64,
        76,   65,   96,   77,   79,   73,   78,   66,   80,   67,
        97,  144,   81,   68,   69,   84,   98,   85,   82,  145,
-      157,   83,   86,  156,  684,  162,   64,   87,   65,   96,
-      682,   79,  680,  678,   66,   80,   67,   97,  674,   81,
+      157,   83,   86,  156,  689,  162,   64,   87,   65,   96,
+      687,   79,  685,  683,   66,   80,   67,   97,  681,   81,
        68,   69,   84,   98,   85,   82,  106,  157,   83,   86,
 
-      107,   99,  162,  667,   87,   88,  108,  100,  101,  102,
-      112,  109,  653,   89,  103,  110,   90,  146,  147,   91,
-      629,  111,   92,  106,  113,   93,  163,  107,   99,  583,
+      107,   99,  162,  678,   87,   88,  108,  100,  101,  102,
+      112,  109,  674,   89,  103,  110,   90,  146,  147,   91,
+      667,  111,   92,  106,  113,   93,  163,  107,   99,  653,
       114,  115,   88,  108,  100,  101,  102,  112,  109,  121,
        89,  103,  110,   90,  146,  147,   91,  116,  111,   92,
       122,  113,   93,  163,  167,  117,  123,  114,  115,  118,
       168,  124,  119,  120,  158,  125,  121,  171,  141,  126,
-      142,  178,  159,  143,  116,  127,  508,  122,  409,  188,
-      281,  167,  117,  123,  154,  189,  118,  168,  124,  119,
-      120,  158,  125,  153,  171,  141,  126,  142,  178,  159,
+      142,  178,  159,  143,  116,  127,  629,  122,  583,  188,
+      508,  167,  117,  123,  409,  189,  118,  168,  124,  119,
+      120,  158,  125,  281,  171,  141,  126,  142,  178,  159,
 
-      143,  160,  127,  128,  161,  129,  188,  169,  130,  151,
-      149,  131,  189,  132,  170,  133,  134,   56,   56,   56,
-       56,   56,   56,   56,   56,   56,   56,   62,  160,  176,
+      143,  160,  127,  128,  161,  129,  188,  169,  130,  154,
+      153,  131,  189,  132,  170,  133,  134,   56,   56,   56,
+       56,   56,   56,   56,   56,   56,   56,  151,  160,  176,
       128,  161,  129,  190,  169,  130,  164,  165,  131,  177,
       132,  170,  133,  134,  135,  172,  173,  174,  136,  175,
       166,  137,  138,  193,  179,  199,  176,  200,  139,  180,
-      190,  140,   61,  164,  165,   52,  177,  693,   50,   50,
-      693,  135,  172,  173,  174,  136,  175,  166,  137,  138,
-      193,  179,  199,  693,  200,  139,  180,  693,  140,  155,
+      190,  140,  149,  164,  165,   62,  177,   61,   52,  696,
+       50,  135,  172,  173,  174,  136,  175,  166,  137,  138,
+      193,  179,  199,   50,  200,  139,  180,  696,  140,  155,
       155,  155,  155,  155,  155,  155,  155,  155,  155,   57,
 
        58,   58,   58,   58,   58,   58,   58,   58,   58,   58,
@@ -929,19 +931,19 @@ static const flex_int16_t yy_nxt[1561] =
       227,  215,  228,  229,  230,  231,  216,  217,  232,  233,
       226,  234,  235,  236,  237,  238,  239,  240,  241,  243,
       244,  248,  242,  249,  251,  245,  252,  255,  257,  258,
-      259,  260,  261,  246,  250,  253,  693,  264,  247,  265,
-      266,  256,  693,  254,  693,  241,  243,  244,  248,  242,
+      259,  260,  261,  246,  250,  253,  696,  264,  247,  265,
+      266,  256,  696,  254,  696,  241,  243,  244,  248,  242,
       249,  251,  245,  252,  255,  257,  258,  259,  260,  261,
       246,  250,  253,  262,  264,  247,  265,  266,  256,  267,
       254,  269,  272,  273,  263,  276,  274,  278,  270,  279,
       280,  271,  275,  282,  283,  284,  285,  286,  277,  268,
-      262,  693,  693,  693,  693,  693,  267,  693,  269,  272,
+      262,  696,  696,  696,  696,  696,  267,  696,  269,  272,
 
       273,  263,  276,  274,  278,  270,  279,  280,  271,  275,
       282,  283,  284,  285,  286,  277,  268,  155,  155,  155,
       155,  155,  155,  155,  155,  155,  155,  287,  288,  289,
       290,  291,  292,  295,  293,  296,  297,  298,  299,  300,
-      301,  302,  303,  304,  305,  306,  307,  693,  310,  294,
+      301,  302,  303,  304,  305,  306,  307,  696,  310,  294,
       311,  312,  313,  314,  287,  288,  289,  290,  291,  292,
       295,  293,  296,  297,  298,  299,  300,  301,  302,  303,
       304,  305,  306,  307,  308,  310,  294,  311,  312,  313,
@@ -954,7 +956,7 @@ static const flex_int16_t yy_nxt[1561] =
       335,  336,  337,  338,  339,  341,  342,  344,  345,  346,
       347,  348,  349,  350,  352,  353,  343,  354,  355,  356,
       357,  358,  359,  351,  360,  340,  361,  362,  363,  366,
-      693,  369,  341,  342,  344,  345,  346,  347,  348,  349,
+      696,  369,  341,  342,  344,  345,  346,  347,  348,  349,
       350,  352,  353,  343,  354,  355,  356,  357,  358,  359,
       351,  360,  364,  361,  362,  363,  366,  367,  369,  370,
       371,  372,  373,  374,  375,  376,  377,  378,  379,  380,
@@ -1019,29 +1021,29 @@ static const flex_int16_t yy_nxt[1561] =
       634,  635,  641,  636,  637,  638,  639,  642,  640,  643,
       644,  645,  646,  647,  648,  649,  650,  651,  652,  654,
       631,  631,  656,  657,  658,  659,  660,  661,  662,  641,
-      663,  693,  664,  665,  642,  666,  643,  644,  645,  646,
+      663,  696,  664,  665,  642,  666,  643,  644,  645,  646,
       647,  648,  649,  650,  651,  652,  654,  669,  670,  656,
       657,  658,  659,  660,  661,  662,  671,  663,  655,  664,
-      665,  672,  666,  673,  668,  668,  676,  677,  679,  681,
-      683,  685,  687,  689,  669,  670,  693,  693,  693,  693,
-
-      693,  693,  693,  671,  693,  655,  693,  693,  672,  693,
-      673,  693,  693,  676,  677,  679,  681,  683,  685,  687,
-      689,  693,  693,  693,  693,  693,  675,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  675,   46,   46,   46,   46,   46,   46,
-       49,   49,   49,   49,   49,   49,   53,  693,  693,   53,
-       53,  150,  150,  150,  693,  150,  152,  693,  152,  152,
-      152,  152,    7,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693
+      665,  672,  666,  673,  668,  668,  676,  677,  679,  682,
+      684,  686,  688,  690,  669,  670,  696,  696,  696,  696,
+
+      696,  696,  696,  671,  696,  655,  696,  696,  672,  696,
+      673,  696,  696,  676,  677,  679,  682,  684,  686,  688,
+      690,  696,  696,  696,  696,  696,  675,  695,  695,  695,
+      695,  695,  695,  695,  695,  695,  695,  695,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  675,   46,   46,   46,   46,   46,   46,
+       49,   49,   49,   49,   49,   49,   53,  696,  696,   53,
+       53,  150,  150,  150,  696,  150,  152,  696,  152,  152,
+      152,  152,    7,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696
     } ;
 
 static const flex_int16_t yy_chk[1561] =
@@ -1058,36 +1060,36 @@ static const flex_int16_t yy_chk[1561] =
        16,   16,   16,   16,   15,   17,   17,   17,   17,   17,
 
        17,   17,   17,   17,   17,   17,   18,   18,   22,   23,
-       30,   27,   22,   31,   44,  697,   23,   27,   22,   51,
-       51,  591,  591,   23,  654,  654,   23,  691,   22,   23,
-      690,  688,  686,  684,   42,   22,   23,   30,   27,   22,
+       30,   27,   22,   31,   44,  704,   23,   27,   22,   51,
+       51,  591,  591,   23,  654,  654,   23,  703,   22,   23,
+      700,  693,  691,  689,   42,   22,   23,   30,   27,   22,
        31,   44,   42,   23,   27,   22,   64,    3,    4,   21,
        23,   21,   28,   23,   24,   22,   23,   21,   24,   21,
        28,   42,   24,   21,   21,   25,   28,   25,   24,   42,
-       65,   24,   25,   64,  682,   68,   21,   25,   21,   28,
-      680,   24,  678,  674,   21,   24,   21,   28,  667,   24,
+       65,   24,   25,   64,  687,   68,   21,   25,   21,   28,
+      685,   24,  683,  681,   21,   24,   21,   28,  678,   24,
        21,   21,   25,   28,   25,   24,   32,   65,   24,   25,
 
-       32,   29,   68,  653,   25,   26,   32,   29,   29,   29,
-       34,   33,  629,   26,   29,   33,   26,   43,   43,   26,
-      583,   33,   26,   32,   34,   26,   69,   32,   29,  508,
+       32,   29,   68,  674,   25,   26,   32,   29,   29,   29,
+       34,   33,  667,   26,   29,   33,   26,   43,   43,   26,
+      653,   33,   26,   32,   34,   26,   69,   32,   29,  629,
        34,   34,   26,   32,   29,   29,   29,   34,   33,   36,
        26,   29,   33,   26,   43,   43,   26,   35,   33,   26,
        36,   34,   26,   69,   71,   35,   36,   34,   34,   35,
        72,   38,   35,   35,   66,   38,   36,   75,   41,   38,
-       41,   78,   66,   41,   35,   38,  409,   36,  281,   82,
-      154,   71,   35,   36,   55,   83,   35,   72,   38,   35,
-       35,   66,   38,   53,   75,   41,   38,   41,   78,   66,
+       41,   78,   66,   41,   35,   38,  583,   36,  508,   82,
+      409,   71,   35,   36,  281,   83,   35,   72,   38,   35,
+       35,   66,   38,  154,   75,   41,   38,   41,   78,   66,
 
-       41,   67,   38,   39,   67,   39,   82,   74,   39,   47,
-       45,   39,   83,   39,   74,   39,   39,   56,   56,   56,
-       56,   56,   56,   56,   56,   56,   56,   20,   67,   77,
+       41,   67,   38,   39,   67,   39,   82,   74,   39,   55,
+       53,   39,   83,   39,   74,   39,   39,   56,   56,   56,
+       56,   56,   56,   56,   56,   56,   56,   47,   67,   77,
        39,   67,   39,   84,   74,   39,   70,   70,   39,   77,
        39,   74,   39,   39,   40,   76,   76,   76,   40,   76,
        70,   40,   40,   86,   79,   88,   77,   89,   40,   79,
-       84,   40,   19,   70,   70,   11,   77,    7,    6,    5,
-        0,   40,   76,   76,   76,   40,   76,   70,   40,   40,
-       86,   79,   88,    0,   89,   40,   79,    0,   40,   57,
+       84,   40,   45,   70,   70,   20,   77,   19,   11,    7,
+        6,   40,   76,   76,   76,   40,   76,   70,   40,   40,
+       86,   79,   88,    5,   89,   40,   79,    0,   40,   57,
        57,   57,   57,   57,   57,   57,   57,   57,   57,   58,
 
        58,   58,   58,   58,   58,   58,   58,   58,   58,   58,
@@ -1198,25 +1200,25 @@ static const flex_int16_t yy_chk[1561] =
       620,  622,  623,  624,  625,  626,  630,  655,  656,  633,
       637,  638,  641,  642,  643,  644,  659,  648,  631,  649,
       650,  662,  652,  665,  668,  668,  669,  673,  675,  679,
-      681,  683,  685,  687,  655,  656,    0,    0,    0,    0,
+      682,  684,  686,  688,  655,  656,    0,    0,    0,    0,
 
         0,    0,    0,  659,    0,  631,    0,    0,  662,    0,
-      665,    0,    0,  669,  673,  675,  679,  681,  683,  685,
-      687,    0,    0,    0,    0,    0,  668,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+      665,    0,    0,  669,  673,  675,  679,  682,  684,  686,
+      688,    0,    0,    0,    0,    0,  668,  694,  694,  694,
+      694,  694,  694,  694,  694,  694,  694,  694,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,  668,  694,  694,  694,  694,  694,  694,
-      695,  695,  695,  695,  695,  695,  696,    0,    0,  696,
-      696,  698,  698,  698,    0,  698,  699,    0,  699,  699,
-      699,  699,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693,
-      693,  693,  693,  693,  693,  693,  693,  693,  693,  693
+        0,    0,    0,  668,  697,  697,  697,  697,  697,  697,
+      698,  698,  698,  698,  698,  698,  699,    0,    0,  699,
+      699,  701,  701,  701,    0,  701,  702,    0,  702,  702,
+      702,  702,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696,
+      696,  696,  696,  696,  696,  696,  696,  696,  696,  696
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1250,7 +1252,7 @@ static const flex_int16_t yy_chk[1561] =
 
 static thread_local std::stringstream strbuf;
 
-#line 1254 "flex_lexer.cpp"
+#line 1256 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1264,7 +1266,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1268 "flex_lexer.cpp"
+#line 1270 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1551,7 +1553,7 @@ YY_DECL
 #line 60 "flex_lexer.l"
 
 
-#line 1555 "flex_lexer.cpp"
+#line 1557 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1578,13 +1580,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 694 )
+				if ( yy_current_state >= 697 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 693 );
+		while ( yy_current_state != 696 );
 		yy_cp = yyg->yy_last_accepting_cpos;
 		yy_current_state = yyg->yy_last_accepting_state;
 
@@ -2458,47 +2460,68 @@ YY_RULE_SETUP
 #line 234 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
-/* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
+/* Not one of the tokens above if ROW or VARYING is only the beginning of the second word */
 case 171:
+/* rule 171 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_bp + 7);
+yyg->yy_c_buf_p = yy_cp = yy_bp + 7;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 237 "flex_lexer.l"
-TOKEN(EQUALS)
+{ yylval->sval = strdup(yytext); return SQL_IDENTIFIER; }
 	YY_BREAK
 case 172:
+/* rule 172 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_bp + 9);
+yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 238 "flex_lexer.l"
-TOKEN(NOTEQUALS)
+{ yylval->sval = strdup(yytext); return SQL_IDENTIFIER; }
 	YY_BREAK
+/* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
 case 173:
 YY_RULE_SETUP
-#line 239 "flex_lexer.l"
-TOKEN(NOTEQUALS)
+#line 241 "flex_lexer.l"
+TOKEN(EQUALS)
 	YY_BREAK
 case 174:
 YY_RULE_SETUP
-#line 240 "flex_lexer.l"
-TOKEN(LESSEQ)
+#line 242 "flex_lexer.l"
+TOKEN(NOTEQUALS)
 	YY_BREAK
 case 175:
 YY_RULE_SETUP
-#line 241 "flex_lexer.l"
-TOKEN(GREATEREQ)
+#line 243 "flex_lexer.l"
+TOKEN(NOTEQUALS)
 	YY_BREAK
 case 176:
 YY_RULE_SETUP
-#line 242 "flex_lexer.l"
-TOKEN(CONCAT)
+#line 244 "flex_lexer.l"
+TOKEN(LESSEQ)
 	YY_BREAK
 case 177:
 YY_RULE_SETUP
-#line 244 "flex_lexer.l"
-{ return yytext[0]; }
+#line 245 "flex_lexer.l"
+TOKEN(GREATEREQ)
 	YY_BREAK
 case 178:
-#line 247 "flex_lexer.l"
+YY_RULE_SETUP
+#line 246 "flex_lexer.l"
+TOKEN(CONCAT)
+	YY_BREAK
 case 179:
 YY_RULE_SETUP
-#line 247 "flex_lexer.l"
+#line 248 "flex_lexer.l"
+{ return yytext[0]; }
+	YY_BREAK
+case 180:
+#line 251 "flex_lexer.l"
+case 181:
+YY_RULE_SETUP
+#line 251 "flex_lexer.l"
 {
   yylval->fval = atof(yytext);
   return SQL_FLOATVAL;
@@ -2509,17 +2532,25 @@ YY_RULE_SETUP
    * positive equivalent. We thus match for LLONG_MIN specifically. This is not an issue for floats, where
    *   numeric_limits<double>::lowest() == -numeric_limits<double>::max();
    */
-case 180:
+case 182:
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 257 "flex_lexer.l"
+#line 261 "flex_lexer.l"
+{ return yytext[0]; }
+	YY_BREAK
+case 183:
+YY_RULE_SETUP
+#line 262 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
 }
 	YY_BREAK
-case 181:
+case 184:
 YY_RULE_SETUP
-#line 262 "flex_lexer.l"
+#line 267 "flex_lexer.l"
 {
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 10);
@@ -2530,64 +2561,64 @@ YY_RULE_SETUP
   return SQL_INTVAL;
 }
 	YY_BREAK
-case 182:
+case 185:
 YY_RULE_SETUP
-#line 272 "flex_lexer.l"
+#line 277 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
-case 183:
+case 186:
 YY_RULE_SETUP
-#line 278 "flex_lexer.l"
+#line 283 "flex_lexer.l"
 {
   yylval->sval = strdup(yytext);
   return SQL_IDENTIFIER;
 }
 	YY_BREAK
-case 184:
+case 187:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 288 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
-case 185:
+case 188:
 YY_RULE_SETUP
-#line 284 "flex_lexer.l"
+#line 289 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
-case 186:
-/* rule 186 can match eol */
+case 189:
+/* rule 189 can match eol */
 YY_RULE_SETUP
-#line 285 "flex_lexer.l"
+#line 290 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
-case 187:
+case 190:
 YY_RULE_SETUP
-#line 286 "flex_lexer.l"
+#line 291 "flex_lexer.l"
 { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] String contains a null character\n"); return INVALID_TOKEN; }
 	YY_BREAK
-case 188:
+case 191:
 YY_RULE_SETUP
-#line 287 "flex_lexer.l"
+#line 292 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 288 "flex_lexer.l"
+#line 293 "flex_lexer.l"
 { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return INVALID_TOKEN; }
 	YY_BREAK
-case 189:
+case 192:
 YY_RULE_SETUP
-#line 290 "flex_lexer.l"
+#line 295 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return INVALID_TOKEN; }
 	YY_BREAK
-case 190:
+case 193:
 YY_RULE_SETUP
-#line 292 "flex_lexer.l"
+#line 297 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2591 "flex_lexer.cpp"
+#line 2622 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(COMMENT):
 	yyterminate();
@@ -2888,7 +2919,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 694 )
+			if ( yy_current_state >= 697 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -2917,11 +2948,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 694 )
+		if ( yy_current_state >= 697 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 693);
+	yy_is_jam = (yy_current_state == 696);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -3744,7 +3775,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 292 "flex_lexer.l"
+#line 297 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index edc1b1c..c820cdb 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -730,7 +730,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 292 "flex_lexer.l"
+#line 297 "flex_lexer.l"
 
 
 #line 737 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 1b31452..768a8f7 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -233,6 +233,10 @@ YEARS       TOKEN(YEARS)
 CURRENT[ \t\n]+ROW       TOKEN(CURRENT_ROW)
 CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
 
+            /* Not one of the tokens above if ROW or VARYING is only the beginning of the second word */
+CURRENT/[ \t\n]+ROW[A-Za-z0-9_]       { yylval->sval = strdup(yytext); return SQL_IDENTIFIER; }
+CHARACTER/[ \t\n]+VARYING[A-Za-z0-9_] { yylval->sval = strdup(yytext); return SQL_IDENTIFIER; }
+
             /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
 "=="        TOKEN(EQUALS)
 "!="        TOKEN(NOTEQUALS)
@@ -254,6 +258,7 @@ CHARACTER[ \t\n]+VARYING TOKEN(CHARACTER_VARYING)
    * positive equivalent. We thus match for LLONG_MIN specifically. This is not an issue for floats, where
    *   numeric_limits<double>::lowest() == -numeric_limits<double>::max();
    */
+"-"/"9223372036854775808"[0-9.] { return yytext[0]; }
 -9223372036854775808 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
-- 
2.43.0


From c05e704e6c169e552084bb89b54ec40dc49fb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 09/25] fix: release the first token's text in tokenize and
 initialise the location

---
 src/SQLParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index c7f9c55..8d300fb 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -51,18 +51,19 @@ bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
   state = hsql__scan_bytes(sql.data(), sql.length(), scanner);
 
   YYSTYPE yylval;
-  YYLTYPE yylloc;
+  YYLTYPE yylloc{};
 
   // Step through the string until EOF is read.
   // Note: hsql_lex returns int, but we know that its range is within 16 bit.
   int16_t token = hsql_lex(&yylval, &yylloc, scanner);
   while (token != 0) {
     tokens->push_back(token);
-    token = hsql_lex(&yylval, &yylloc, scanner);
 
     if (token == SQL_IDENTIFIER || token == SQL_STRING) {
       free(yylval.sval);
     }
+
+    token = hsql_lex(&yylval, &yylloc, scanner);
   }
 
   hsql__delete_buffer(state, scanner);
-- 
2.43.0


From 75d0c5c0aff10f01c99666fca776aa0ab29590d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 10/25] fix: read decimal numbers independently of the process
 locale

---
 src/parser/flex_lexer.cpp | 413 +++++++++++++++++++-------------------
 src/parser/flex_lexer.h   |   2 +-
 src/parser/flex_lexer.l   |  13 +-
 3 files changed, 225 insertions(+), 203 deletions(-)

diff --git a/src/parser/flex_lexer.cpp b/src/parser/flex_lexer.cpp
index 03a4daa..2c09b01 100644
--- a/src/parser/flex_lexer.cpp
+++ b/src/parser/flex_lexer.cpp
@@ -1242,8 +1242,13 @@ static const flex_int16_t yy_chk[1561] =
 #include "../sql/Expr.h"
 #include "bison_parser.h"
 #include <climits>
+#include <locale.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <sstream>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
 
 #define TOKEN(name) { return SQL_##name; }
 
@@ -1252,7 +1257,13 @@ static const flex_int16_t yy_chk[1561] =
 
 static thread_local std::stringstream strbuf;
 
-#line 1256 "flex_lexer.cpp"
+// SQL uses a decimal point, whatever the locale of the process.
+static double parseFloat(const char* text) {
+  static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", nullptr);
+  return strtod_l(text, nullptr, c_locale);
+}
+
+#line 1267 "flex_lexer.cpp"
 
 /***************************
  ** Section 2: Rules
@@ -1266,7 +1277,7 @@ static thread_local std::stringstream strbuf;
 /***************************
  ** Section 3: Rules
  ***************************/
-#line 1270 "flex_lexer.cpp"
+#line 1281 "flex_lexer.cpp"
 
 #define INITIAL 0
 #define singlequotedstring 1
@@ -1550,10 +1561,10 @@ YY_DECL
 		}
 
 	{
-#line 60 "flex_lexer.l"
+#line 71 "flex_lexer.l"
 
 
-#line 1557 "flex_lexer.cpp"
+#line 1568 "flex_lexer.cpp"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1608,856 +1619,856 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 62 "flex_lexer.l"
+#line 73 "flex_lexer.l"
 BEGIN(COMMENT);
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 63 "flex_lexer.l"
+#line 74 "flex_lexer.l"
 /* skipping comment content until a end of line is read */;
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 64 "flex_lexer.l"
+#line 75 "flex_lexer.l"
 BEGIN(INITIAL);
 	YY_BREAK
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 66 "flex_lexer.l"
+#line 77 "flex_lexer.l"
 /* skip whitespace */;
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 68 "flex_lexer.l"
+#line 79 "flex_lexer.l"
 TOKEN(ADD)
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 69 "flex_lexer.l"
+#line 80 "flex_lexer.l"
 TOKEN(AFTER)
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 70 "flex_lexer.l"
+#line 81 "flex_lexer.l"
 TOKEN(ALL)
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 71 "flex_lexer.l"
+#line 82 "flex_lexer.l"
 TOKEN(ALTER)
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 72 "flex_lexer.l"
+#line 83 "flex_lexer.l"
 TOKEN(ANALYZE)
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 73 "flex_lexer.l"
+#line 84 "flex_lexer.l"
 TOKEN(AND)
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 74 "flex_lexer.l"
+#line 85 "flex_lexer.l"
 TOKEN(ARRAY)
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 75 "flex_lexer.l"
+#line 86 "flex_lexer.l"
 TOKEN(AS)
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 76 "flex_lexer.l"
+#line 87 "flex_lexer.l"
 TOKEN(ASC)
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 77 "flex_lexer.l"
+#line 88 "flex_lexer.l"
 TOKEN(BEFORE)
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 78 "flex_lexer.l"
+#line 89 "flex_lexer.l"
 TOKEN(BEGIN)
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 79 "flex_lexer.l"
+#line 90 "flex_lexer.l"
 TOKEN(BETWEEN)
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 80 "flex_lexer.l"
+#line 91 "flex_lexer.l"
 TOKEN(BIGINT)
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 81 "flex_lexer.l"
+#line 92 "flex_lexer.l"
 TOKEN(BOOLEAN)
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 82 "flex_lexer.l"
+#line 93 "flex_lexer.l"
 TOKEN(BY)
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 83 "flex_lexer.l"
+#line 94 "flex_lexer.l"
 TOKEN(CALL)
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 84 "flex_lexer.l"
+#line 95 "flex_lexer.l"
 TOKEN(CASCADE)
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 85 "flex_lexer.l"
+#line 96 "flex_lexer.l"
 TOKEN(CASE)
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 86 "flex_lexer.l"
+#line 97 "flex_lexer.l"
 TOKEN(CAST)
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 87 "flex_lexer.l"
+#line 98 "flex_lexer.l"
 TOKEN(CHAR)
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 88 "flex_lexer.l"
+#line 99 "flex_lexer.l"
 TOKEN(COLUMN)
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 89 "flex_lexer.l"
+#line 100 "flex_lexer.l"
 TOKEN(COLUMNS)
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 90 "flex_lexer.l"
+#line 101 "flex_lexer.l"
 TOKEN(COMMIT)
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 91 "flex_lexer.l"
+#line 102 "flex_lexer.l"
 TOKEN(CONTROL)
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 92 "flex_lexer.l"
+#line 103 "flex_lexer.l"
 TOKEN(COPY)
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 93 "flex_lexer.l"
+#line 104 "flex_lexer.l"
 TOKEN(CREATE)
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 94 "flex_lexer.l"
+#line 105 "flex_lexer.l"
 TOKEN(CROSS)
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 95 "flex_lexer.l"
+#line 106 "flex_lexer.l"
 TOKEN(DATE)
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 96 "flex_lexer.l"
+#line 107 "flex_lexer.l"
 TOKEN(DATETIME)
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 97 "flex_lexer.l"
+#line 108 "flex_lexer.l"
 TOKEN(DAY)
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 98 "flex_lexer.l"
+#line 109 "flex_lexer.l"
 TOKEN(DAYS)
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 99 "flex_lexer.l"
+#line 110 "flex_lexer.l"
 TOKEN(DEALLOCATE)
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 100 "flex_lexer.l"
+#line 111 "flex_lexer.l"
 TOKEN(DECIMAL)
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 101 "flex_lexer.l"
+#line 112 "flex_lexer.l"
 TOKEN(DEFAULT)
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 102 "flex_lexer.l"
+#line 113 "flex_lexer.l"
 TOKEN(DELETE)
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 103 "flex_lexer.l"
+#line 114 "flex_lexer.l"
 TOKEN(DELTA)
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 104 "flex_lexer.l"
+#line 115 "flex_lexer.l"
 TOKEN(DESC)
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 105 "flex_lexer.l"
+#line 116 "flex_lexer.l"
 TOKEN(DESCRIBE)
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 106 "flex_lexer.l"
+#line 117 "flex_lexer.l"
 TOKEN(DIRECT)
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 107 "flex_lexer.l"
+#line 118 "flex_lexer.l"
 TOKEN(DISTINCT)
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 108 "flex_lexer.l"
+#line 119 "flex_lexer.l"
 TOKEN(DOUBLE)
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 109 "flex_lexer.l"
+#line 120 "flex_lexer.l"
 TOKEN(DROP)
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 110 "flex_lexer.l"
+#line 121 "flex_lexer.l"
 TOKEN(ELSE)
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 111 "flex_lexer.l"
+#line 122 "flex_lexer.l"
 TOKEN(ENCODING)
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 112 "flex_lexer.l"
+#line 123 "flex_lexer.l"
 TOKEN(END)
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 113 "flex_lexer.l"
+#line 124 "flex_lexer.l"
 TOKEN(ESCAPE)
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 114 "flex_lexer.l"
+#line 125 "flex_lexer.l"
 TOKEN(EXCEPT)
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 115 "flex_lexer.l"
+#line 126 "flex_lexer.l"
 TOKEN(EXECUTE)
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 116 "flex_lexer.l"
+#line 127 "flex_lexer.l"
 TOKEN(EXISTS)
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 117 "flex_lexer.l"
+#line 128 "flex_lexer.l"
 TOKEN(EXPLAIN)
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 118 "flex_lexer.l"
+#line 129 "flex_lexer.l"
 TOKEN(EXTRACT)
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 119 "flex_lexer.l"
+#line 130 "flex_lexer.l"
 TOKEN(FALSE)
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 120 "flex_lexer.l"
+#line 131 "flex_lexer.l"
 TOKEN(FILE)
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 121 "flex_lexer.l"
+#line 132 "flex_lexer.l"
 TOKEN(FLOAT)
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 122 "flex_lexer.l"
+#line 133 "flex_lexer.l"
 TOKEN(FOLLOWING)
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 123 "flex_lexer.l"
+#line 134 "flex_lexer.l"
 TOKEN(FOR)
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 124 "flex_lexer.l"
+#line 135 "flex_lexer.l"
 TOKEN(FOREIGN)
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 125 "flex_lexer.l"
+#line 136 "flex_lexer.l"
 TOKEN(FORMAT)
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 126 "flex_lexer.l"
+#line 137 "flex_lexer.l"
 TOKEN(FROM)
 	YY_BREAK
 case 64:
 YY_RULE_SETUP
-#line 127 "flex_lexer.l"
+#line 138 "flex_lexer.l"
 TOKEN(FULL)
 	YY_BREAK
 case 65:
 YY_RULE_SETUP
-#line 128 "flex_lexer.l"
+#line 139 "flex_lexer.l"
 TOKEN(GLOBAL)
 	YY_BREAK
 case 66:
 YY_RULE_SETUP
-#line 129 "flex_lexer.l"
+#line 140 "flex_lexer.l"
 TOKEN(GROUP)
 	YY_BREAK
 case 67:
 YY_RULE_SETUP
-#line 130 "flex_lexer.l"
+#line 141 "flex_lexer.l"
 TOKEN(GROUPS)
 	YY_BREAK
 case 68:
 YY_RULE_SETUP
-#line 131 "flex_lexer.l"
+#line 142 "flex_lexer.l"
 TOKEN(HASH)
 	YY_BREAK
 case 69:
 YY_RULE_SETUP
-#line 132 "flex_lexer.l"
+#line 143 "flex_lexer.l"
 TOKEN(HAVING)
 	YY_BREAK
 case 70:
 YY_RULE_SETUP
-#line 133 "flex_lexer.l"
+#line 144 "flex_lexer.l"
 TOKEN(HINT)
 	YY_BREAK
 case 71:
 YY_RULE_SETUP
-#line 134 "flex_lexer.l"
+#line 145 "flex_lexer.l"
 TOKEN(HOUR)
 	YY_BREAK
 case 72:
 YY_RULE_SETUP
-#line 135 "flex_lexer.l"
+#line 146 "flex_lexer.l"
 TOKEN(HOURS)
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 136 "flex_lexer.l"
+#line 147 "flex_lexer.l"
 TOKEN(IF)
 	YY_BREAK
 case 74:
 YY_RULE_SETUP
-#line 137 "flex_lexer.l"
+#line 148 "flex_lexer.l"
 TOKEN(ILIKE)
 	YY_BREAK
 case 75:
 YY_RULE_SETUP
-#line 138 "flex_lexer.l"
+#line 149 "flex_lexer.l"
 TOKEN(IMPORT)
 	YY_BREAK
 case 76:
 YY_RULE_SETUP
-#line 139 "flex_lexer.l"
+#line 150 "flex_lexer.l"
 TOKEN(IN)
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
-#line 140 "flex_lexer.l"
+#line 151 "flex_lexer.l"
 TOKEN(INDEX)
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-#line 141 "flex_lexer.l"
+#line 152 "flex_lexer.l"
 TOKEN(INNER)
 	YY_BREAK
 case 79:
 YY_RULE_SETUP
-#line 142 "flex_lexer.l"
+#line 153 "flex_lexer.l"
 TOKEN(INSERT)
 	YY_BREAK
 case 80:
 YY_RULE_SETUP
-#line 143 "flex_lexer.l"
+#line 154 "flex_lexer.l"
 TOKEN(INT)
 	YY_BREAK
 case 81:
 YY_RULE_SETUP
-#line 144 "flex_lexer.l"
+#line 155 "flex_lexer.l"
 TOKEN(INTEGER)
 	YY_BREAK
 case 82:
 YY_RULE_SETUP
-#line 145 "flex_lexer.l"
+#line 156 "flex_lexer.l"
 TOKEN(INTERSECT)
 	YY_BREAK
 case 83:
 YY_RULE_SETUP
-#line 146 "flex_lexer.l"
+#line 157 "flex_lexer.l"
 TOKEN(INTERVAL)
 	YY_BREAK
 case 84:
 YY_RULE_SETUP
-#line 147 "flex_lexer.l"
+#line 158 "flex_lexer.l"
 TOKEN(INTO)
 	YY_BREAK
 case 85:
 YY_RULE_SETUP
-#line 148 "flex_lexer.l"
+#line 159 "flex_lexer.l"
 TOKEN(IS)
 	YY_BREAK
 case 86:
 YY_RULE_SETUP
-#line 149 "flex_lexer.l"
+#line 160 "flex_lexer.l"
 TOKEN(ISNULL)
 	YY_BREAK
 case 87:
 YY_RULE_SETUP
-#line 150 "flex_lexer.l"
+#line 161 "flex_lexer.l"
 TOKEN(JOIN)
 	YY_BREAK
 case 88:
 YY_RULE_SETUP
-#line 151 "flex_lexer.l"
+#line 162 "flex_lexer.l"
 TOKEN(KEY)
 	YY_BREAK
 case 89:
 YY_RULE_SETUP
-#line 152 "flex_lexer.l"
+#line 163 "flex_lexer.l"
 TOKEN(LEFT)
 	YY_BREAK
 case 90:
 YY_RULE_SETUP
-#line 153 "flex_lexer.l"
+#line 164 "flex_lexer.l"
 TOKEN(LIKE)
 	YY_BREAK
 case 91:
 YY_RULE_SETUP
-#line 154 "flex_lexer.l"
+#line 165 "flex_lexer.l"
 TOKEN(LIMIT)
 	YY_BREAK
 case 92:
 YY_RULE_SETUP
-#line 155 "flex_lexer.l"
+#line 166 "flex_lexer.l"
 TOKEN(LOAD)
 	YY_BREAK
 case 93:
 YY_RULE_SETUP
-#line 156 "flex_lexer.l"
+#line 167 "flex_lexer.l"
 TOKEN(LOCAL)
 	YY_BREAK
 case 94:
 YY_RULE_SETUP
-#line 157 "flex_lexer.l"
+#line 168 "flex_lexer.l"
 TOKEN(LOCKED)
 	YY_BREAK
 case 95:
 YY_RULE_SETUP
-#line 158 "flex_lexer.l"
+#line 169 "flex_lexer.l"
 TOKEN(LONG)
 	YY_BREAK
 case 96:
 YY_RULE_SETUP
-#line 159 "flex_lexer.l"
+#line 170 "flex_lexer.l"
 TOKEN(MERGE)
 	YY_BREAK
 case 97:
 YY_RULE_SETUP
-#line 160 "flex_lexer.l"
+#line 171 "flex_lexer.l"
 TOKEN(MINUS)
 	YY_BREAK
 case 98:
 YY_RULE_SETUP
-#line 161 "flex_lexer.l"
+#line 172 "flex_lexer.l"
 TOKEN(MINUTE)
 	YY_BREAK
 case 99:
 YY_RULE_SETUP
-#line 162 "flex_lexer.l"
+#line 173 "flex_lexer.l"
 TOKEN(MINUTES)
 	YY_BREAK
 case 100:
 YY_RULE_SETUP
-#line 163 "flex_lexer.l"
+#line 174 "flex_lexer.l"
 TOKEN(MONTH)
 	YY_BREAK
 case 101:
 YY_RULE_SETUP
-#line 164 "flex_lexer.l"
+#line 175 "flex_lexer.l"
 TOKEN(MONTHS)
 	YY_BREAK
 case 102:
 YY_RULE_SETUP
-#line 165 "flex_lexer.l"
+#line 176 "flex_lexer.l"
 TOKEN(NATURAL)
 	YY_BREAK
 case 103:
 YY_RULE_SETUP
-#line 166 "flex_lexer.l"
+#line 177 "flex_lexer.l"
 TOKEN(NO)
 	YY_BREAK
 case 104:
 YY_RULE_SETUP
-#line 167 "flex_lexer.l"
+#line 178 "flex_lexer.l"
 TOKEN(NOT)
 	YY_BREAK
 case 105:
 YY_RULE_SETUP
-#line 168 "flex_lexer.l"
+#line 179 "flex_lexer.l"
 TOKEN(NOWAIT)
 	YY_BREAK
 case 106:
 YY_RULE_SETUP
-#line 169 "flex_lexer.l"
+#line 180 "flex_lexer.l"
 TOKEN(NULL)
 	YY_BREAK
 case 107:
 YY_RULE_SETUP
-#line 170 "flex_lexer.l"
+#line 181 "flex_lexer.l"
 TOKEN(NVARCHAR)
 	YY_BREAK
 case 108:
 YY_RULE_SETUP
-#line 171 "flex_lexer.l"
+#line 182 "flex_lexer.l"
 TOKEN(OF)
 	YY_BREAK
 case 109:
 YY_RULE_SETUP
-#line 172 "flex_lexer.l"
+#line 183 "flex_lexer.l"
 TOKEN(OFF)
 	YY_BREAK
 case 110:
 YY_RULE_SETUP
-#line 173 "flex_lexer.l"
+#line 184 "flex_lexer.l"
 TOKEN(OFFSET)
 	YY_BREAK
 case 111:
 YY_RULE_SETUP
-#line 174 "flex_lexer.l"
+#line 185 "flex_lexer.l"
 TOKEN(ON)
 	YY_BREAK
 case 112:
 YY_RULE_SETUP
-#line 175 "flex_lexer.l"
+#line 186 "flex_lexer.l"
 TOKEN(OR)
 	YY_BREAK
 case 113:
 YY_RULE_SETUP
-#line 176 "flex_lexer.l"
+#line 187 "flex_lexer.l"
 TOKEN(ORDER)
 	YY_BREAK
 case 114:
 YY_RULE_SETUP
-#line 177 "flex_lexer.l"
+#line 188 "flex_lexer.l"
 TOKEN(OUTER)
 	YY_BREAK
 case 115:
 YY_RULE_SETUP
-#line 178 "flex_lexer.l"
+#line 189 "flex_lexer.l"
 TOKEN(OVER)
 	YY_BREAK
 case 116:
 YY_RULE_SETUP
-#line 179 "flex_lexer.l"
+#line 190 "flex_lexer.l"
 TOKEN(PARAMETERS)
 	YY_BREAK
 case 117:
 YY_RULE_SETUP
-#line 180 "flex_lexer.l"
+#line 191 "flex_lexer.l"
 TOKEN(PARTITION)
 	YY_BREAK
 case 118:
 YY_RULE_SETUP
-#line 181 "flex_lexer.l"
+#line 192 "flex_lexer.l"
 TOKEN(PLAN)
 	YY_BREAK
 case 119:
 YY_RULE_SETUP
-#line 182 "flex_lexer.l"
+#line 193 "flex_lexer.l"
 TOKEN(PRECEDING)
 	YY_BREAK
 case 120:
 YY_RULE_SETUP
-#line 183 "flex_lexer.l"
+#line 194 "flex_lexer.l"
 TOKEN(PREPARE)
 	YY_BREAK
 case 121:
 YY_RULE_SETUP
-#line 184 "flex_lexer.l"
+#line 195 "flex_lexer.l"
 TOKEN(PRIMARY)
 	YY_BREAK
 case 122:
 YY_RULE_SETUP
-#line 185 "flex_lexer.l"
+#line 196 "flex_lexer.l"
 TOKEN(RANGE)
 	YY_BREAK
 case 123:
 YY_RULE_SETUP
-#line 186 "flex_lexer.l"
+#line 197 "flex_lexer.l"
 TOKEN(REAL)
 	YY_BREAK
 case 124:
 YY_RULE_SETUP
-#line 187 "flex_lexer.l"
+#line 198 "flex_lexer.l"
 TOKEN(REFERENCES)
 	YY_BREAK
 case 125:
 YY_RULE_SETUP
-#line 188 "flex_lexer.l"
+#line 199 "flex_lexer.l"
 TOKEN(RENAME)
 	YY_BREAK
 case 126:
 YY_RULE_SETUP
-#line 189 "flex_lexer.l"
+#line 200 "flex_lexer.l"
 TOKEN(RESTRICT)
 	YY_BREAK
 case 127:
 YY_RULE_SETUP
-#line 190 "flex_lexer.l"
+#line 201 "flex_lexer.l"
 TOKEN(RIGHT)
 	YY_BREAK
 case 128:
 YY_RULE_SETUP
-#line 191 "flex_lexer.l"
+#line 202 "flex_lexer.l"
 TOKEN(ROLLBACK)
 	YY_BREAK
 case 129:
 YY_RULE_SETUP
-#line 192 "flex_lexer.l"
+#line 203 "flex_lexer.l"
 TOKEN(ROWS)
 	YY_BREAK
 case 130:
 YY_RULE_SETUP
-#line 193 "flex_lexer.l"
+#line 204 "flex_lexer.l"
 TOKEN(SCHEMA)
 	YY_BREAK
 case 131:
 YY_RULE_SETUP
-#line 194 "flex_lexer.l"
+#line 205 "flex_lexer.l"
 TOKEN(SCHEMAS)
 	YY_BREAK
 case 132:
 YY_RULE_SETUP
-#line 195 "flex_lexer.l"
+#line 206 "flex_lexer.l"
 TOKEN(SECOND)
 	YY_BREAK
 case 133:
 YY_RULE_SETUP
-#line 196 "flex_lexer.l"
+#line 207 "flex_lexer.l"
 TOKEN(SECONDS)
 	YY_BREAK
 case 134:
 YY_RULE_SETUP
-#line 197 "flex_lexer.l"
+#line 208 "flex_lexer.l"
 TOKEN(SELECT)
 	YY_BREAK
 case 135:
 YY_RULE_SETUP
-#line 198 "flex_lexer.l"
+#line 209 "flex_lexer.l"
 TOKEN(SET)
 	YY_BREAK
 case 136:
 YY_RULE_SETUP
-#line 199 "flex_lexer.l"
+#line 210 "flex_lexer.l"
 TOKEN(SHARE)
 	YY_BREAK
 case 137:
 YY_RULE_SETUP
-#line 200 "flex_lexer.l"
+#line 211 "flex_lexer.l"
 TOKEN(SHOW)
 	YY_BREAK
 case 138:
 YY_RULE_SETUP
-#line 201 "flex_lexer.l"
+#line 212 "flex_lexer.l"
 TOKEN(SKIP)
 	YY_BREAK
 case 139:
 YY_RULE_SETUP
-#line 202 "flex_lexer.l"
+#line 213 "flex_lexer.l"
 TOKEN(SMALLINT)
 	YY_BREAK
 case 140:
 YY_RULE_SETUP
-#line 203 "flex_lexer.l"
+#line 214 "flex_lexer.l"
 TOKEN(SORTED)
 	YY_BREAK
 case 141:
 YY_RULE_SETUP
-#line 204 "flex_lexer.l"
+#line 215 "flex_lexer.l"
 TOKEN(SPATIAL)
 	YY_BREAK
 case 142:
 YY_RULE_SETUP
-#line 205 "flex_lexer.l"
+#line 216 "flex_lexer.l"
 TOKEN(TABLE)
 	YY_BREAK
 case 143:
 YY_RULE_SETUP
-#line 206 "flex_lexer.l"
+#line 217 "flex_lexer.l"
 TOKEN(TABLES)
 	YY_BREAK
 case 144:
 YY_RULE_SETUP
-#line 207 "flex_lexer.l"
+#line 218 "flex_lexer.l"
 TOKEN(TEMPORARY)
 	YY_BREAK
 case 145:
 YY_RULE_SETUP
-#line 208 "flex_lexer.l"
+#line 219 "flex_lexer.l"
 TOKEN(TEXT)
 	YY_BREAK
 case 146:
 YY_RULE_SETUP
-#line 209 "flex_lexer.l"
+#line 220 "flex_lexer.l"
 TOKEN(THEN)
 	YY_BREAK
 case 147:
 YY_RULE_SETUP
-#line 210 "flex_lexer.l"
+#line 221 "flex_lexer.l"
 TOKEN(TIME)
 	YY_BREAK
 case 148:
 YY_RULE_SETUP
-#line 211 "flex_lexer.l"
+#line 222 "flex_lexer.l"
 TOKEN(TIMESTAMP)
 	YY_BREAK
 case 149:
 YY_RULE_SETUP
-#line 212 "flex_lexer.l"
+#line 223 "flex_lexer.l"
 TOKEN(TO)
 	YY_BREAK
 case 150:
 YY_RULE_SETUP
-#line 213 "flex_lexer.l"
+#line 224 "flex_lexer.l"
 TOKEN(TOP)
 	YY_BREAK
 case 151:
 YY_RULE_SETUP
-#line 214 "flex_lexer.l"
+#line 225 "flex_lexer.l"
 TOKEN(TRANSACTION)
 	YY_BREAK
 case 152:
 YY_RULE_SETUP
-#line 215 "flex_lexer.l"
+#line 226 "flex_lexer.l"
 TOKEN(TRUE)
 	YY_BREAK
 case 153:
 YY_RULE_SETUP
-#line 216 "flex_lexer.l"
+#line 227 "flex_lexer.l"
 TOKEN(TRUNCATE)
 	YY_BREAK
 case 154:
 YY_RULE_SETUP
-#line 217 "flex_lexer.l"
+#line 228 "flex_lexer.l"
 TOKEN(UNBOUNDED)
 	YY_BREAK
 case 155:
 YY_RULE_SETUP
-#line 218 "flex_lexer.l"
+#line 229 "flex_lexer.l"
 TOKEN(UNION)
 	YY_BREAK
 case 156:
 YY_RULE_SETUP
-#line 219 "flex_lexer.l"
+#line 230 "flex_lexer.l"
 TOKEN(UNIQUE)
 	YY_BREAK
 case 157:
 YY_RULE_SETUP
-#line 220 "flex_lexer.l"
+#line 231 "flex_lexer.l"
 TOKEN(UNLOAD)
 	YY_BREAK
 case 158:
 YY_RULE_SETUP
-#line 221 "flex_lexer.l"
+#line 232 "flex_lexer.l"
 TOKEN(UPDATE)
 	YY_BREAK
 case 159:
 YY_RULE_SETUP
-#line 222 "flex_lexer.l"
+#line 233 "flex_lexer.l"
 TOKEN(USING)
 	YY_BREAK
 case 160:
 YY_RULE_SETUP
-#line 223 "flex_lexer.l"
+#line 234 "flex_lexer.l"
 TOKEN(VALUES)
 	YY_BREAK
 case 161:
 YY_RULE_SETUP
-#line 224 "flex_lexer.l"
+#line 235 "flex_lexer.l"
 TOKEN(VARCHAR)
 	YY_BREAK
 case 162:
 YY_RULE_SETUP
-#line 225 "flex_lexer.l"
+#line 236 "flex_lexer.l"
 TOKEN(VIEW)
 	YY_BREAK
 case 163:
 YY_RULE_SETUP
-#line 226 "flex_lexer.l"
+#line 237 "flex_lexer.l"
 TOKEN(VIRTUAL)
 	YY_BREAK
 case 164:
 YY_RULE_SETUP
-#line 227 "flex_lexer.l"
+#line 238 "flex_lexer.l"
 TOKEN(WHEN)
 	YY_BREAK
 case 165:
 YY_RULE_SETUP
-#line 228 "flex_lexer.l"
+#line 239 "flex_lexer.l"
 TOKEN(WHERE)
 	YY_BREAK
 case 166:
 YY_RULE_SETUP
-#line 229 "flex_lexer.l"
+#line 240 "flex_lexer.l"
 TOKEN(WITH)
 	YY_BREAK
 case 167:
 YY_RULE_SETUP
-#line 230 "flex_lexer.l"
+#line 241 "flex_lexer.l"
 TOKEN(YEAR)
 	YY_BREAK
 case 168:
 YY_RULE_SETUP
-#line 231 "flex_lexer.l"
+#line 242 "flex_lexer.l"
 TOKEN(YEARS)
 	YY_BREAK
 case 169:
 /* rule 169 can match eol */
 YY_RULE_SETUP
-#line 233 "flex_lexer.l"
+#line 244 "flex_lexer.l"
 TOKEN(CURRENT_ROW)
 	YY_BREAK
 case 170:
 /* rule 170 can match eol */
 YY_RULE_SETUP
-#line 234 "flex_lexer.l"
+#line 245 "flex_lexer.l"
 TOKEN(CHARACTER_VARYING)
 	YY_BREAK
 /* Not one of the tokens above if ROW or VARYING is only the beginning of the second word */
@@ -2468,7 +2479,7 @@ YY_LINENO_REWIND_TO(yy_bp + 7);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 7;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 237 "flex_lexer.l"
+#line 248 "flex_lexer.l"
 { yylval->sval = strdup(yytext); return SQL_IDENTIFIER; }
 	YY_BREAK
 case 172:
@@ -2478,52 +2489,52 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 238 "flex_lexer.l"
+#line 249 "flex_lexer.l"
 { yylval->sval = strdup(yytext); return SQL_IDENTIFIER; }
 	YY_BREAK
 /* Allow =/== see https://sqlite.org/lang_expr.html#collateop */
 case 173:
 YY_RULE_SETUP
-#line 241 "flex_lexer.l"
+#line 252 "flex_lexer.l"
 TOKEN(EQUALS)
 	YY_BREAK
 case 174:
 YY_RULE_SETUP
-#line 242 "flex_lexer.l"
+#line 253 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 175:
 YY_RULE_SETUP
-#line 243 "flex_lexer.l"
+#line 254 "flex_lexer.l"
 TOKEN(NOTEQUALS)
 	YY_BREAK
 case 176:
 YY_RULE_SETUP
-#line 244 "flex_lexer.l"
+#line 255 "flex_lexer.l"
 TOKEN(LESSEQ)
 	YY_BREAK
 case 177:
 YY_RULE_SETUP
-#line 245 "flex_lexer.l"
+#line 256 "flex_lexer.l"
 TOKEN(GREATEREQ)
 	YY_BREAK
 case 178:
 YY_RULE_SETUP
-#line 246 "flex_lexer.l"
+#line 257 "flex_lexer.l"
 TOKEN(CONCAT)
 	YY_BREAK
 case 179:
 YY_RULE_SETUP
-#line 248 "flex_lexer.l"
+#line 259 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
 case 180:
-#line 251 "flex_lexer.l"
+#line 262 "flex_lexer.l"
 case 181:
 YY_RULE_SETUP
-#line 251 "flex_lexer.l"
+#line 262 "flex_lexer.l"
 {
-  yylval->fval = atof(yytext);
+  yylval->fval = parseFloat(yytext);
   return SQL_FLOATVAL;
 }
 	YY_BREAK
@@ -2537,12 +2548,12 @@ case 182:
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 261 "flex_lexer.l"
+#line 272 "flex_lexer.l"
 { return yytext[0]; }
 	YY_BREAK
 case 183:
 YY_RULE_SETUP
-#line 262 "flex_lexer.l"
+#line 273 "flex_lexer.l"
 {
   yylval->ival = LLONG_MIN;
   return SQL_INTVAL;
@@ -2550,7 +2561,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 184:
 YY_RULE_SETUP
-#line 267 "flex_lexer.l"
+#line 278 "flex_lexer.l"
 {
   errno = 0;
   yylval->ival = strtoll(yytext, nullptr, 10);
@@ -2563,7 +2574,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 185:
 YY_RULE_SETUP
-#line 277 "flex_lexer.l"
+#line 288 "flex_lexer.l"
 {
   // Crop the leading and trailing quote char
   yylval->sval = hsql::substr(yytext, 1, strlen(yytext)-1);
@@ -2572,7 +2583,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 186:
 YY_RULE_SETUP
-#line 283 "flex_lexer.l"
+#line 294 "flex_lexer.l"
 {
   yylval->sval = strdup(yytext);
   return SQL_IDENTIFIER;
@@ -2580,45 +2591,45 @@ YY_RULE_SETUP
 	YY_BREAK
 case 187:
 YY_RULE_SETUP
-#line 288 "flex_lexer.l"
+#line 299 "flex_lexer.l"
 { BEGIN singlequotedstring; strbuf.clear(); strbuf.str(""); }  // Clear strbuf manually, see #170
 	YY_BREAK
 case 188:
 YY_RULE_SETUP
-#line 289 "flex_lexer.l"
+#line 300 "flex_lexer.l"
 { strbuf << '\''; }
 	YY_BREAK
 case 189:
 /* rule 189 can match eol */
 YY_RULE_SETUP
-#line 290 "flex_lexer.l"
+#line 301 "flex_lexer.l"
 { strbuf << yytext; }
 	YY_BREAK
 case 190:
 YY_RULE_SETUP
-#line 291 "flex_lexer.l"
+#line 302 "flex_lexer.l"
 { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] String contains a null character\n"); return INVALID_TOKEN; }
 	YY_BREAK
 case 191:
 YY_RULE_SETUP
-#line 292 "flex_lexer.l"
+#line 303 "flex_lexer.l"
 { BEGIN 0; yylval->sval = strdup(strbuf.str().c_str()); return SQL_STRING; }
 	YY_BREAK
 case YY_STATE_EOF(singlequotedstring):
-#line 293 "flex_lexer.l"
+#line 304 "flex_lexer.l"
 { BEGIN(INITIAL); fprintf(stderr, "[SQL-Lexer-Error] Unterminated string\n"); return INVALID_TOKEN; }
 	YY_BREAK
 case 192:
 YY_RULE_SETUP
-#line 295 "flex_lexer.l"
+#line 306 "flex_lexer.l"
 { fprintf(stderr, "[SQL-Lexer-Error] Unknown Character: %c\n", yytext[0]); return INVALID_TOKEN; }
 	YY_BREAK
 case 193:
 YY_RULE_SETUP
-#line 297 "flex_lexer.l"
+#line 308 "flex_lexer.l"
 ECHO;
 	YY_BREAK
-#line 2622 "flex_lexer.cpp"
+#line 2633 "flex_lexer.cpp"
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(COMMENT):
 	yyterminate();
@@ -3775,7 +3786,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 297 "flex_lexer.l"
+#line 308 "flex_lexer.l"
 
 /***************************
  ** Section 3: User code
diff --git a/src/parser/flex_lexer.h b/src/parser/flex_lexer.h
index c820cdb..4835e2c 100644
--- a/src/parser/flex_lexer.h
+++ b/src/parser/flex_lexer.h
@@ -730,7 +730,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 297 "flex_lexer.l"
+#line 308 "flex_lexer.l"
 
 
 #line 737 "flex_lexer.h"
diff --git a/src/parser/flex_lexer.l b/src/parser/flex_lexer.l
index 768a8f7..4d031a1 100644
--- a/src/parser/flex_lexer.l
+++ b/src/parser/flex_lexer.l
@@ -13,8 +13,13 @@
 #include "../sql/Expr.h"
 #include "bison_parser.h"
 #include <climits>
+#include <locale.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <sstream>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
 
 #define TOKEN(name) { return SQL_##name; }
 
@@ -23,6 +28,12 @@
 
 static thread_local std::stringstream strbuf;
 
+// SQL uses a decimal point, whatever the locale of the process.
+static double parseFloat(const char* text) {
+  static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", nullptr);
+  return strtod_l(text, nullptr, c_locale);
+}
+
 %}
 %x singlequotedstring
 
@@ -249,7 +260,7 @@ CHARACTER/[ \t\n]+VARYING[A-Za-z0-9_] { yylval->sval = strdup(yytext); return SQ
 
 [0-9]+"."[0-9]* |
 "."[0-9]*  {
-  yylval->fval = atof(yytext);
+  yylval->fval = parseFloat(yytext);
   return SQL_FLOATVAL;
 }
 
-- 
2.43.0


From fce6f686268f716a1f4e3fc1920a679adae806b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 11/25] fix: release the contents of partial constructs when
 parsing fails

The destructors of update clauses, locking clauses, WITH lists and column
constraints released the outermost object only.
---
 src/parser/bison_parser.cpp | 1827 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |   46 +-
 2 files changed, 995 insertions(+), 878 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index f35c246..8527b26 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -874,42 +874,42 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   343,   343,   362,   368,   375,   379,   383,   384,   385,
-     387,   388,   389,   390,   391,   392,   393,   394,   395,   396,
-     402,   403,   405,   409,   414,   418,   428,   429,   430,   432,
-     432,   438,   444,   446,   450,   462,   468,   485,   500,   502,
-     503,   504,   506,   520,   524,   534,   538,   562,   570,   583,
-     590,   605,   625,   626,   631,   642,   655,   667,   674,   681,
-     690,   691,   693,   697,   702,   703,   705,   713,   714,   715,
-     716,   717,   718,   719,   723,   724,   725,   726,   727,   728,
-     729,   730,   731,   732,   733,   735,   736,   738,   739,   740,
-     742,   743,   745,   749,   753,   758,   766,   767,   768,   769,
-     771,   772,   773,   775,   783,   789,   795,   801,   807,   808,
-     815,   821,   823,   833,   840,   851,   858,   866,   867,   874,
-     881,   885,   890,   900,   904,   908,   920,   920,   922,   923,
-     932,   933,   935,   949,   961,   966,   970,   974,   979,   980,
-     982,   992,   993,   995,   997,   998,  1000,  1002,  1003,  1005,
-    1010,  1012,  1013,  1015,  1016,  1018,  1022,  1027,  1029,  1030,
-    1031,  1033,  1034,  1056,  1057,  1059,  1060,  1061,  1062,  1063,
-    1064,  1069,  1073,  1079,  1080,  1082,  1086,  1091,  1091,  1095,
-    1103,  1104,  1106,  1115,  1115,  1115,  1115,  1115,  1117,  1118,
-    1118,  1118,  1118,  1118,  1118,  1118,  1118,  1119,  1119,  1123,
-    1123,  1125,  1126,  1127,  1128,  1129,  1131,  1131,  1132,  1133,
-    1134,  1135,  1136,  1137,  1138,  1139,  1140,  1142,  1143,  1145,
-    1146,  1147,  1148,  1152,  1153,  1154,  1155,  1157,  1158,  1160,
-    1161,  1163,  1164,  1165,  1166,  1167,  1168,  1169,  1173,  1174,
-    1175,  1176,  1180,  1181,  1183,  1184,  1189,  1190,  1191,  1195,
-    1196,  1197,  1199,  1200,  1201,  1202,  1203,  1205,  1207,  1209,
-    1210,  1211,  1212,  1213,  1214,  1216,  1217,  1218,  1219,  1220,
-    1221,  1223,  1223,  1225,  1227,  1229,  1231,  1232,  1233,  1234,
-    1236,  1236,  1236,  1236,  1236,  1236,  1236,  1238,  1240,  1241,
-    1243,  1244,  1246,  1248,  1250,  1261,  1262,  1273,  1305,  1314,
-    1314,  1321,  1321,  1323,  1323,  1330,  1334,  1339,  1347,  1353,
-    1357,  1362,  1363,  1365,  1365,  1367,  1367,  1369,  1370,  1372,
-    1372,  1378,  1379,  1381,  1385,  1390,  1396,  1403,  1404,  1405,
-    1406,  1408,  1409,  1410,  1416,  1416,  1418,  1420,  1424,  1429,
-    1439,  1446,  1454,  1463,  1464,  1465,  1466,  1467,  1468,  1469,
-    1470,  1471,  1472,  1474,  1480,  1480,  1483,  1487
+       0,   387,   387,   406,   412,   419,   423,   427,   428,   429,
+     431,   432,   433,   434,   435,   436,   437,   438,   439,   440,
+     446,   447,   449,   453,   458,   462,   472,   473,   474,   476,
+     476,   482,   488,   490,   494,   506,   512,   529,   544,   546,
+     547,   548,   550,   564,   568,   578,   582,   606,   614,   627,
+     634,   649,   669,   670,   675,   686,   699,   711,   718,   725,
+     734,   735,   737,   741,   746,   747,   749,   757,   758,   759,
+     760,   761,   762,   763,   767,   768,   769,   770,   771,   772,
+     773,   774,   775,   776,   777,   779,   780,   782,   783,   784,
+     786,   787,   789,   793,   797,   802,   810,   811,   812,   813,
+     815,   816,   817,   819,   827,   833,   839,   845,   851,   852,
+     859,   865,   867,   877,   884,   895,   902,   910,   911,   918,
+     925,   929,   934,   944,   948,   952,   964,   964,   966,   967,
+     976,   977,   979,   993,  1005,  1010,  1014,  1018,  1023,  1024,
+    1026,  1036,  1037,  1039,  1041,  1042,  1044,  1046,  1047,  1049,
+    1054,  1056,  1057,  1059,  1060,  1062,  1066,  1071,  1073,  1074,
+    1075,  1077,  1078,  1100,  1101,  1103,  1104,  1105,  1106,  1107,
+    1108,  1113,  1117,  1123,  1124,  1126,  1130,  1135,  1135,  1139,
+    1147,  1148,  1150,  1159,  1159,  1159,  1159,  1159,  1161,  1162,
+    1162,  1162,  1162,  1162,  1162,  1162,  1162,  1163,  1163,  1167,
+    1167,  1169,  1170,  1171,  1172,  1173,  1175,  1175,  1176,  1177,
+    1178,  1179,  1180,  1181,  1182,  1183,  1184,  1186,  1187,  1189,
+    1190,  1191,  1192,  1196,  1197,  1198,  1199,  1201,  1202,  1204,
+    1205,  1207,  1208,  1209,  1210,  1211,  1212,  1213,  1217,  1218,
+    1219,  1220,  1224,  1225,  1227,  1228,  1233,  1234,  1235,  1239,
+    1240,  1241,  1243,  1244,  1245,  1246,  1247,  1249,  1251,  1253,
+    1254,  1255,  1256,  1257,  1258,  1260,  1261,  1262,  1263,  1264,
+    1265,  1267,  1267,  1269,  1271,  1273,  1275,  1276,  1277,  1278,
+    1280,  1280,  1280,  1280,  1280,  1280,  1280,  1282,  1284,  1285,
+    1287,  1288,  1290,  1292,  1294,  1305,  1306,  1317,  1349,  1358,
+    1358,  1365,  1365,  1367,  1367,  1374,  1378,  1383,  1391,  1397,
+    1401,  1406,  1407,  1409,  1409,  1411,  1411,  1413,  1414,  1416,
+    1416,  1422,  1423,  1425,  1429,  1434,  1440,  1447,  1448,  1449,
+    1450,  1452,  1453,  1454,  1460,  1460,  1462,  1464,  1468,  1473,
+    1483,  1490,  1498,  1507,  1508,  1509,  1510,  1511,  1512,  1513,
+    1514,  1515,  1516,  1518,  1524,  1524,  1527,  1531
 };
 #endif
 
@@ -2127,13 +2127,13 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
 #line 2133 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
 #line 2139 "bison_parser.cpp"
         break;
@@ -2165,19 +2165,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 2171 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
 #line 2177 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
 #line 2183 "bison_parser.cpp"
         break;
@@ -2189,13 +2189,13 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
 #line 2195 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
 #line 2201 "bison_parser.cpp"
         break;
@@ -2213,19 +2213,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
 #line 2219 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
 #line 2225 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 203 "bison_parser.y"
+#line 247 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
@@ -2234,19 +2234,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
 #line 2240 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
 #line 2246 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
 #line 2252 "bison_parser.cpp"
         break;
@@ -2271,13 +2271,13 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
 #line 2277 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
 #line 2283 "bison_parser.cpp"
         break;
@@ -2295,87 +2295,101 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
 #line 2301 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).column_constraints_t)); }
-#line 2307 "bison_parser.cpp"
+#line 239 "bison_parser.y"
+            {
+  for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
+    delete ptr;
+  }
+  delete ((*yyvaluep).column_constraints_t)->references;
+  delete ((*yyvaluep).column_constraints_t)->constraints;
+  delete (((*yyvaluep).column_constraints_t));
+}
+#line 2314 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).column_constraints_t)); }
-#line 2313 "bison_parser.cpp"
+#line 239 "bison_parser.y"
+            {
+  for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
+    delete ptr;
+  }
+  delete ((*yyvaluep).column_constraints_t)->references;
+  delete ((*yyvaluep).column_constraints_t)->constraints;
+  delete (((*yyvaluep).column_constraints_t));
+}
+#line 2327 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
 #line 181 "bison_parser.y"
             { }
-#line 2319 "bison_parser.cpp"
+#line 2333 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 2325 "bison_parser.cpp"
+#line 2339 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 2331 "bison_parser.cpp"
+#line 2345 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 2337 "bison_parser.cpp"
+#line 2351 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
 #line 181 "bison_parser.y"
             { }
-#line 2343 "bison_parser.cpp"
+#line 2357 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 2349 "bison_parser.cpp"
+#line 2363 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 2355 "bison_parser.cpp"
+#line 2369 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 2361 "bison_parser.cpp"
+#line 2375 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 2367 "bison_parser.cpp"
+#line 2381 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 2373 "bison_parser.cpp"
+#line 2387 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 2379 "bison_parser.cpp"
+#line 2393 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
@@ -2388,92 +2402,96 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2392 "bison_parser.cpp"
+#line 2406 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 2398 "bison_parser.cpp"
+#line 2412 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 195 "bison_parser.y"
+#line 208 "bison_parser.y"
             {
-  if (((*yyvaluep).update_vec)) {
-    for (auto ptr : *(((*yyvaluep).update_vec))) {
-      delete ptr;
-    }
+  for (auto ptr : *(((*yyvaluep).update_vec))) {
+    free(ptr->column);
+    delete ptr->value;
+    delete ptr;
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 2411 "bison_parser.cpp"
+#line 2425 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).update_t)); }
-#line 2417 "bison_parser.cpp"
+#line 203 "bison_parser.y"
+            {
+  free(((*yyvaluep).update_t)->column);
+  delete ((*yyvaluep).update_t)->value;
+  delete (((*yyvaluep).update_t));
+}
+#line 2435 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2423 "bison_parser.cpp"
+#line 2441 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2429 "bison_parser.cpp"
+#line 2447 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2435 "bison_parser.cpp"
+#line 2453 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2441 "bison_parser.cpp"
+#line 2459 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2447 "bison_parser.cpp"
+#line 2465 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 2453 "bison_parser.cpp"
+#line 2471 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 2459 "bison_parser.cpp"
+#line 2477 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
 #line 181 "bison_parser.y"
             { }
-#line 2465 "bison_parser.cpp"
+#line 2483 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2471 "bison_parser.cpp"
+#line 2489 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
 #line 181 "bison_parser.y"
             { }
-#line 2477 "bison_parser.cpp"
+#line 2495 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
@@ -2486,37 +2504,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2490 "bison_parser.cpp"
+#line 2508 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2496 "bison_parser.cpp"
+#line 2514 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2502 "bison_parser.cpp"
+#line 2520 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2508 "bison_parser.cpp"
+#line 2526 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 2514 "bison_parser.cpp"
+#line 2532 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2520 "bison_parser.cpp"
+#line 2538 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
@@ -2529,7 +2547,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2533 "bison_parser.cpp"
+#line 2551 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
@@ -2542,37 +2560,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2546 "bison_parser.cpp"
+#line 2564 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 2552 "bison_parser.cpp"
+#line 2570 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
 #line 181 "bison_parser.y"
             { }
-#line 2558 "bison_parser.cpp"
+#line 2576 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
 #line 181 "bison_parser.y"
             { }
-#line 2564 "bison_parser.cpp"
+#line 2582 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 2570 "bison_parser.cpp"
+#line 2588 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 2576 "bison_parser.cpp"
+#line 2594 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
@@ -2585,7 +2603,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2589 "bison_parser.cpp"
+#line 2607 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
@@ -2598,7 +2616,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2602 "bison_parser.cpp"
+#line 2620 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
@@ -2611,103 +2629,103 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2615 "bison_parser.cpp"
+#line 2633 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2621 "bison_parser.cpp"
+#line 2639 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2627 "bison_parser.cpp"
+#line 2645 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2633 "bison_parser.cpp"
+#line 2651 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2639 "bison_parser.cpp"
+#line 2657 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2645 "bison_parser.cpp"
+#line 2663 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2651 "bison_parser.cpp"
+#line 2669 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2657 "bison_parser.cpp"
+#line 2675 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2663 "bison_parser.cpp"
+#line 2681 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2669 "bison_parser.cpp"
+#line 2687 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2675 "bison_parser.cpp"
+#line 2693 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2681 "bison_parser.cpp"
+#line 2699 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2687 "bison_parser.cpp"
+#line 2705 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2693 "bison_parser.cpp"
+#line 2711 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2699 "bison_parser.cpp"
+#line 2717 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2705 "bison_parser.cpp"
+#line 2723 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 2711 "bison_parser.cpp"
+#line 2729 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
@@ -2720,151 +2738,151 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2724 "bison_parser.cpp"
+#line 2742 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 2730 "bison_parser.cpp"
+#line 2748 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
 #line 181 "bison_parser.y"
             { }
-#line 2736 "bison_parser.cpp"
+#line 2754 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 2742 "bison_parser.cpp"
+#line 2760 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2748 "bison_parser.cpp"
+#line 2766 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2754 "bison_parser.cpp"
+#line 2772 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
 #line 181 "bison_parser.y"
             { }
-#line 2760 "bison_parser.cpp"
+#line 2778 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
 #line 181 "bison_parser.y"
             { }
-#line 2766 "bison_parser.cpp"
+#line 2784 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
 #line 181 "bison_parser.y"
             { }
-#line 2772 "bison_parser.cpp"
+#line 2790 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2778 "bison_parser.cpp"
+#line 2796 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2784 "bison_parser.cpp"
+#line 2802 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2790 "bison_parser.cpp"
+#line 2808 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2796 "bison_parser.cpp"
+#line 2814 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2802 "bison_parser.cpp"
+#line 2820 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2808 "bison_parser.cpp"
+#line 2826 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2814 "bison_parser.cpp"
+#line 2832 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2820 "bison_parser.cpp"
+#line 2838 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2826 "bison_parser.cpp"
+#line 2844 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2832 "bison_parser.cpp"
+#line 2850 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2838 "bison_parser.cpp"
+#line 2856 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2844 "bison_parser.cpp"
+#line 2862 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2850 "bison_parser.cpp"
+#line 2868 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2856 "bison_parser.cpp"
+#line 2874 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2862 "bison_parser.cpp"
+#line 2880 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2868 "bison_parser.cpp"
+#line 2886 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
@@ -2877,19 +2895,19 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 2881 "bison_parser.cpp"
+#line 2899 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2887 "bison_parser.cpp"
+#line 2905 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2893 "bison_parser.cpp"
+#line 2911 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
@@ -2898,109 +2916,164 @@ yydestruct (const char *yymsg,
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 2902 "bison_parser.cpp"
+#line 2920 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
 #line 194 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2908 "bison_parser.cpp"
+#line 2926 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2914 "bison_parser.cpp"
+#line 2932 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2920 "bison_parser.cpp"
+#line 2938 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2926 "bison_parser.cpp"
+#line 2944 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2932 "bison_parser.cpp"
+#line 2950 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2938 "bison_parser.cpp"
+#line 225 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_clause_vec)) {
+    for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
+      if (ptr->tables) {
+        for (auto table : *(ptr->tables)) {
+          free(table);
+        }
+        delete ptr->tables;
+      }
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).locking_clause_vec));
+}
+#line 2969 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).locking_clause_vec)); }
-#line 2944 "bison_parser.cpp"
+#line 225 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_clause_vec)) {
+    for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
+      if (ptr->tables) {
+        for (auto table : *(ptr->tables)) {
+          free(table);
+        }
+        delete ptr->tables;
+      }
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).locking_clause_vec));
+}
+#line 2988 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).locking_t)); }
-#line 2950 "bison_parser.cpp"
+#line 216 "bison_parser.y"
+            {
+  if (((*yyvaluep).locking_t)->tables) {
+    for (auto ptr : *(((*yyvaluep).locking_t)->tables)) {
+      free(ptr);
+    }
+    delete ((*yyvaluep).locking_t)->tables;
+  }
+  delete (((*yyvaluep).locking_t));
+}
+#line 3002 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
 #line 181 "bison_parser.y"
             { }
-#line 2956 "bison_parser.cpp"
+#line 3008 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
 #line 181 "bison_parser.y"
             { }
-#line 2962 "bison_parser.cpp"
+#line 3014 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).with_description_vec)); }
-#line 2968 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 3027 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).with_description_vec)); }
-#line 2974 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 3040 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 207 "bison_parser.y"
-            { delete (((*yyvaluep).with_description_vec)); }
-#line 2980 "bison_parser.cpp"
+#line 195 "bison_parser.y"
+            {
+  if (((*yyvaluep).with_description_vec)) {
+    for (auto ptr : *(((*yyvaluep).with_description_vec))) {
+      delete ptr;
+    }
+  }
+  delete (((*yyvaluep).with_description_vec));
+}
+#line 3053 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 2986 "bison_parser.cpp"
+#line 3059 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2992 "bison_parser.cpp"
+#line 3065 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
 #line 181 "bison_parser.y"
             { }
-#line 2998 "bison_parser.cpp"
+#line 3071 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 207 "bison_parser.y"
+#line 251 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3004 "bison_parser.cpp"
+#line 3077 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
@@ -3013,7 +3086,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3017 "bison_parser.cpp"
+#line 3090 "bison_parser.cpp"
         break;
 
       default:
@@ -3121,7 +3194,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 3125 "bison_parser.cpp"
+#line 3198 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -3332,7 +3405,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 343 "bison_parser.y"
+#line 387 "bison_parser.y"
                                      {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
@@ -3350,236 +3423,236 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3354 "bison_parser.cpp"
+#line 3427 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 362 "bison_parser.y"
+#line 406 "bison_parser.y"
                            {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3365 "bison_parser.cpp"
+#line 3438 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 368 "bison_parser.y"
+#line 412 "bison_parser.y"
                                {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3376 "bison_parser.cpp"
+#line 3449 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 375 "bison_parser.y"
+#line 419 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3385 "bison_parser.cpp"
+#line 3458 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 379 "bison_parser.y"
+#line 423 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3394 "bison_parser.cpp"
+#line 3467 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 383 "bison_parser.y"
+#line 427 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3400 "bison_parser.cpp"
+#line 3473 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 384 "bison_parser.y"
+#line 428 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3406 "bison_parser.cpp"
+#line 3479 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 385 "bison_parser.y"
+#line 429 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3412 "bison_parser.cpp"
+#line 3485 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 387 "bison_parser.y"
+#line 431 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3418 "bison_parser.cpp"
+#line 3491 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 388 "bison_parser.y"
+#line 432 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3424 "bison_parser.cpp"
+#line 3497 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 389 "bison_parser.y"
+#line 433 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3430 "bison_parser.cpp"
+#line 3503 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 390 "bison_parser.y"
+#line 434 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3436 "bison_parser.cpp"
+#line 3509 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 391 "bison_parser.y"
+#line 435 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3442 "bison_parser.cpp"
+#line 3515 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 392 "bison_parser.y"
+#line 436 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3448 "bison_parser.cpp"
+#line 3521 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 393 "bison_parser.y"
+#line 437 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3454 "bison_parser.cpp"
+#line 3527 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 394 "bison_parser.y"
+#line 438 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3460 "bison_parser.cpp"
+#line 3533 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 395 "bison_parser.y"
+#line 439 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3466 "bison_parser.cpp"
+#line 3539 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 396 "bison_parser.y"
+#line 440 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3472 "bison_parser.cpp"
+#line 3545 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 402 "bison_parser.y"
+#line 446 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3478 "bison_parser.cpp"
+#line 3551 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 403 "bison_parser.y"
+#line 447 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 3484 "bison_parser.cpp"
+#line 3557 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 405 "bison_parser.y"
+#line 449 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3493 "bison_parser.cpp"
+#line 3566 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 409 "bison_parser.y"
+#line 453 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3502 "bison_parser.cpp"
+#line 3575 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 414 "bison_parser.y"
+#line 458 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3511 "bison_parser.cpp"
+#line 3584 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 418 "bison_parser.y"
+#line 462 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3521 "bison_parser.cpp"
+#line 3594 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 428 "bison_parser.y"
+#line 472 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3527 "bison_parser.cpp"
+#line 3600 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 429 "bison_parser.y"
+#line 473 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3533 "bison_parser.cpp"
+#line 3606 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 430 "bison_parser.y"
+#line 474 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3539 "bison_parser.cpp"
+#line 3612 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 438 "bison_parser.y"
+#line 482 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3549 "bison_parser.cpp"
+#line 3622 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 446 "bison_parser.y"
+#line 490 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3558 "bison_parser.cpp"
+#line 3631 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 450 "bison_parser.y"
+#line 494 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3568 "bison_parser.cpp"
+#line 3641 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 462 "bison_parser.y"
+#line 506 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3579 "bison_parser.cpp"
+#line 3652 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 468 "bison_parser.y"
+#line 512 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -3596,11 +3669,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3600 "bison_parser.cpp"
+#line 3673 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 485 "bison_parser.y"
+#line 529 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -3615,35 +3688,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3619 "bison_parser.cpp"
+#line 3692 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 500 "bison_parser.y"
+#line 544 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3625 "bison_parser.cpp"
+#line 3698 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 502 "bison_parser.y"
+#line 546 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3631 "bison_parser.cpp"
+#line 3704 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 503 "bison_parser.y"
+#line 547 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3637 "bison_parser.cpp"
+#line 3710 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 504 "bison_parser.y"
+#line 548 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3643 "bison_parser.cpp"
+#line 3716 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 506 "bison_parser.y"
+#line 550 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -3658,20 +3731,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3662 "bison_parser.cpp"
+#line 3735 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 520 "bison_parser.y"
+#line 564 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3671 "bison_parser.cpp"
+#line 3744 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 524 "bison_parser.y"
+#line 568 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -3682,20 +3755,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3686 "bison_parser.cpp"
+#line 3759 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 534 "bison_parser.y"
+#line 578 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3695 "bison_parser.cpp"
+#line 3768 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 538 "bison_parser.y"
+#line 582 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -3720,11 +3793,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3724 "bison_parser.cpp"
+#line 3797 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 562 "bison_parser.y"
+#line 606 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -3732,11 +3805,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3736 "bison_parser.cpp"
+#line 3809 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 570 "bison_parser.y"
+#line 614 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -3750,17 +3823,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3754 "bison_parser.cpp"
+#line 3827 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 583 "bison_parser.y"
+#line 627 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3760 "bison_parser.cpp"
+#line 3833 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 590 "bison_parser.y"
+#line 634 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -3776,11 +3849,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3780 "bison_parser.cpp"
+#line 3853 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 605 "bison_parser.y"
+#line 649 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -3795,37 +3868,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3799 "bison_parser.cpp"
+#line 3872 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 625 "bison_parser.y"
+#line 669 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3805 "bison_parser.cpp"
+#line 3878 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 626 "bison_parser.y"
+#line 670 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3815 "bison_parser.cpp"
+#line 3888 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 631 "bison_parser.y"
+#line 675 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3825 "bison_parser.cpp"
+#line 3898 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 642 "bison_parser.y"
+#line 686 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
@@ -3839,11 +3912,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3843 "bison_parser.cpp"
+#line 3916 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 655 "bison_parser.y"
+#line 699 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3856,11 +3929,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3860 "bison_parser.cpp"
+#line 3933 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 667 "bison_parser.y"
+#line 711 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -3868,11 +3941,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3872 "bison_parser.cpp"
+#line 3945 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 674 "bison_parser.y"
+#line 718 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -3880,11 +3953,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3884 "bison_parser.cpp"
+#line 3957 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 681 "bison_parser.y"
+#line 725 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3893,53 +3966,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3897 "bison_parser.cpp"
+#line 3970 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 690 "bison_parser.y"
+#line 734 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3903 "bison_parser.cpp"
+#line 3976 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 691 "bison_parser.y"
+#line 735 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3909 "bison_parser.cpp"
+#line 3982 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 693 "bison_parser.y"
+#line 737 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3918 "bison_parser.cpp"
+#line 3991 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 697 "bison_parser.y"
+#line 741 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 3927 "bison_parser.cpp"
+#line 4000 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 702 "bison_parser.y"
+#line 746 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 3933 "bison_parser.cpp"
+#line 4006 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 703 "bison_parser.y"
+#line 747 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 3939 "bison_parser.cpp"
+#line 4012 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 705 "bison_parser.y"
+#line 749 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -3947,192 +4020,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 3951 "bison_parser.cpp"
+#line 4024 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 713 "bison_parser.y"
+#line 757 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 3957 "bison_parser.cpp"
+#line 4030 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 714 "bison_parser.y"
+#line 758 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 3963 "bison_parser.cpp"
+#line 4036 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 715 "bison_parser.y"
+#line 759 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 3969 "bison_parser.cpp"
+#line 4042 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 716 "bison_parser.y"
+#line 760 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 3975 "bison_parser.cpp"
+#line 4048 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 717 "bison_parser.y"
+#line 761 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 3981 "bison_parser.cpp"
+#line 4054 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 718 "bison_parser.y"
+#line 762 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 3987 "bison_parser.cpp"
+#line 4060 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 719 "bison_parser.y"
+#line 763 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 3996 "bison_parser.cpp"
+#line 4069 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 723 "bison_parser.y"
+#line 767 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4002 "bison_parser.cpp"
+#line 4075 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 724 "bison_parser.y"
+#line 768 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4008 "bison_parser.cpp"
+#line 4081 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 725 "bison_parser.y"
+#line 769 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4014 "bison_parser.cpp"
+#line 4087 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 726 "bison_parser.y"
+#line 770 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4020 "bison_parser.cpp"
+#line 4093 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 727 "bison_parser.y"
+#line 771 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4026 "bison_parser.cpp"
+#line 4099 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 728 "bison_parser.y"
+#line 772 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4032 "bison_parser.cpp"
+#line 4105 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 729 "bison_parser.y"
+#line 773 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4038 "bison_parser.cpp"
+#line 4111 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 730 "bison_parser.y"
+#line 774 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4044 "bison_parser.cpp"
+#line 4117 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 731 "bison_parser.y"
+#line 775 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4050 "bison_parser.cpp"
+#line 4123 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 732 "bison_parser.y"
+#line 776 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4056 "bison_parser.cpp"
+#line 4129 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 733 "bison_parser.y"
+#line 777 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4062 "bison_parser.cpp"
+#line 4135 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 735 "bison_parser.y"
+#line 779 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4068 "bison_parser.cpp"
+#line 4141 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 736 "bison_parser.y"
+#line 780 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4074 "bison_parser.cpp"
+#line 4147 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 738 "bison_parser.y"
+#line 782 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4080 "bison_parser.cpp"
+#line 4153 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 739 "bison_parser.y"
+#line 783 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4086 "bison_parser.cpp"
+#line 4159 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 740 "bison_parser.y"
+#line 784 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4092 "bison_parser.cpp"
+#line 4165 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 742 "bison_parser.y"
+#line 786 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4098 "bison_parser.cpp"
+#line 4171 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 743 "bison_parser.y"
+#line 787 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4104 "bison_parser.cpp"
+#line 4177 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 745 "bison_parser.y"
+#line 789 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4113 "bison_parser.cpp"
+#line 4186 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 749 "bison_parser.y"
+#line 793 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4122 "bison_parser.cpp"
+#line 4195 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 753 "bison_parser.y"
+#line 797 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4132 "bison_parser.cpp"
+#line 4205 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 758 "bison_parser.y"
+#line 802 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4140,159 +4213,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4144 "bison_parser.cpp"
+#line 4217 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 766 "bison_parser.y"
+#line 810 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4150 "bison_parser.cpp"
+#line 4223 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 767 "bison_parser.y"
+#line 811 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4156 "bison_parser.cpp"
+#line 4229 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 768 "bison_parser.y"
+#line 812 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4162 "bison_parser.cpp"
+#line 4235 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 769 "bison_parser.y"
+#line 813 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4168 "bison_parser.cpp"
+#line 4241 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 771 "bison_parser.y"
+#line 815 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4174 "bison_parser.cpp"
+#line 4247 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 772 "bison_parser.y"
+#line 816 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4180 "bison_parser.cpp"
+#line 4253 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 773 "bison_parser.y"
+#line 817 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4186 "bison_parser.cpp"
+#line 4259 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 775 "bison_parser.y"
+#line 819 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4192 "bison_parser.cpp"
+#line 4265 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 783 "bison_parser.y"
+#line 827 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4203 "bison_parser.cpp"
+#line 4276 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 789 "bison_parser.y"
+#line 833 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4214 "bison_parser.cpp"
+#line 4287 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 795 "bison_parser.y"
+#line 839 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4224 "bison_parser.cpp"
+#line 4297 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 801 "bison_parser.y"
+#line 845 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4234 "bison_parser.cpp"
+#line 4307 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 807 "bison_parser.y"
+#line 851 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4240 "bison_parser.cpp"
+#line 4313 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 808 "bison_parser.y"
+#line 852 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4246 "bison_parser.cpp"
+#line 4319 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 815 "bison_parser.y"
+#line 859 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4256 "bison_parser.cpp"
+#line 4329 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 821 "bison_parser.y"
+#line 865 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4262 "bison_parser.cpp"
+#line 4335 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 823 "bison_parser.y"
+#line 867 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4271 "bison_parser.cpp"
+#line 4344 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 833 "bison_parser.y"
+#line 877 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4282 "bison_parser.cpp"
+#line 4355 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 840 "bison_parser.y"
+#line 884 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4292 "bison_parser.cpp"
+#line 4365 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 851 "bison_parser.y"
+#line 895 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4300,11 +4373,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4304 "bison_parser.cpp"
+#line 4377 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 858 "bison_parser.y"
+#line 902 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4312,80 +4385,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4316 "bison_parser.cpp"
+#line 4389 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 866 "bison_parser.y"
+#line 910 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4322 "bison_parser.cpp"
+#line 4395 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 867 "bison_parser.y"
+#line 911 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4328 "bison_parser.cpp"
+#line 4401 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 874 "bison_parser.y"
+#line 918 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4339 "bison_parser.cpp"
+#line 4412 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 881 "bison_parser.y"
+#line 925 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4348 "bison_parser.cpp"
+#line 4421 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 885 "bison_parser.y"
+#line 929 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4357 "bison_parser.cpp"
+#line 4430 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 890 "bison_parser.y"
+#line 934 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4367 "bison_parser.cpp"
+#line 4440 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 900 "bison_parser.y"
+#line 944 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4376 "bison_parser.cpp"
+#line 4449 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 904 "bison_parser.y"
+#line 948 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4385 "bison_parser.cpp"
+#line 4458 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 908 "bison_parser.y"
+#line 952 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4397,17 +4470,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4401 "bison_parser.cpp"
+#line 4474 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 922 "bison_parser.y"
+#line 966 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4407 "bison_parser.cpp"
+#line 4480 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 923 "bison_parser.y"
+#line 967 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4416,23 +4489,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4420 "bison_parser.cpp"
+#line 4493 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 932 "bison_parser.y"
+#line 976 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4426 "bison_parser.cpp"
+#line 4499 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 933 "bison_parser.y"
+#line 977 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4432 "bison_parser.cpp"
+#line 4505 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 935 "bison_parser.y"
+#line 979 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4447,11 +4520,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4451 "bison_parser.cpp"
+#line 4524 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 949 "bison_parser.y"
+#line 993 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4463,59 +4536,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4467 "bison_parser.cpp"
+#line 4540 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 961 "bison_parser.y"
+#line 1005 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4476 "bison_parser.cpp"
+#line 4549 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 966 "bison_parser.y"
+#line 1010 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4485 "bison_parser.cpp"
+#line 4558 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 970 "bison_parser.y"
+#line 1014 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4494 "bison_parser.cpp"
+#line 4567 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 974 "bison_parser.y"
+#line 1018 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4503 "bison_parser.cpp"
+#line 4576 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 979 "bison_parser.y"
+#line 1023 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4509 "bison_parser.cpp"
+#line 4582 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 980 "bison_parser.y"
+#line 1024 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4515 "bison_parser.cpp"
+#line 4588 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 982 "bison_parser.y"
+#line 1026 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4525,141 +4598,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4529 "bison_parser.cpp"
+#line 4602 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 992 "bison_parser.y"
+#line 1036 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4535 "bison_parser.cpp"
+#line 4608 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 993 "bison_parser.y"
+#line 1037 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4541 "bison_parser.cpp"
+#line 4614 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 997 "bison_parser.y"
+#line 1041 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4547 "bison_parser.cpp"
+#line 4620 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 998 "bison_parser.y"
+#line 1042 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4553 "bison_parser.cpp"
+#line 4626 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1000 "bison_parser.y"
+#line 1044 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4559 "bison_parser.cpp"
+#line 4632 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1002 "bison_parser.y"
+#line 1046 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4565 "bison_parser.cpp"
+#line 4638 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1003 "bison_parser.y"
+#line 1047 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4571 "bison_parser.cpp"
+#line 4644 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1005 "bison_parser.y"
+#line 1049 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4581 "bison_parser.cpp"
+#line 4654 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1010 "bison_parser.y"
+#line 1054 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4587 "bison_parser.cpp"
+#line 4660 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1012 "bison_parser.y"
+#line 1056 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4593 "bison_parser.cpp"
+#line 4666 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1013 "bison_parser.y"
+#line 1057 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4599 "bison_parser.cpp"
+#line 4672 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1015 "bison_parser.y"
+#line 1059 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4605 "bison_parser.cpp"
+#line 4678 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1016 "bison_parser.y"
+#line 1060 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4611 "bison_parser.cpp"
+#line 4684 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1018 "bison_parser.y"
+#line 1062 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4620 "bison_parser.cpp"
+#line 4693 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1022 "bison_parser.y"
+#line 1066 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4629 "bison_parser.cpp"
+#line 4702 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1027 "bison_parser.y"
+#line 1071 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4635 "bison_parser.cpp"
+#line 4708 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1029 "bison_parser.y"
+#line 1073 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4641 "bison_parser.cpp"
+#line 4714 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1030 "bison_parser.y"
+#line 1074 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4647 "bison_parser.cpp"
+#line 4720 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1031 "bison_parser.y"
+#line 1075 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4653 "bison_parser.cpp"
+#line 4726 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1033 "bison_parser.y"
+#line 1077 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4659 "bison_parser.cpp"
+#line 4732 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1034 "bison_parser.y"
+#line 1078 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4679,115 +4752,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4683 "bison_parser.cpp"
+#line 4756 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1056 "bison_parser.y"
+#line 1100 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4689 "bison_parser.cpp"
+#line 4762 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1057 "bison_parser.y"
+#line 1101 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4695 "bison_parser.cpp"
+#line 4768 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1059 "bison_parser.y"
+#line 1103 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4701 "bison_parser.cpp"
+#line 4774 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1060 "bison_parser.y"
+#line 1104 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4707 "bison_parser.cpp"
+#line 4780 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1061 "bison_parser.y"
+#line 1105 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4713 "bison_parser.cpp"
+#line 4786 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1062 "bison_parser.y"
+#line 1106 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4719 "bison_parser.cpp"
+#line 4792 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1063 "bison_parser.y"
+#line 1107 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4725 "bison_parser.cpp"
+#line 4798 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1064 "bison_parser.y"
+#line 1108 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4731 "bison_parser.cpp"
+#line 4804 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1069 "bison_parser.y"
+#line 1113 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4740 "bison_parser.cpp"
+#line 4813 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1073 "bison_parser.y"
+#line 1117 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4749 "bison_parser.cpp"
+#line 4822 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1079 "bison_parser.y"
+#line 1123 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4755 "bison_parser.cpp"
+#line 4828 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1080 "bison_parser.y"
+#line 1124 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4761 "bison_parser.cpp"
+#line 4834 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1082 "bison_parser.y"
+#line 1126 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4770 "bison_parser.cpp"
+#line 4843 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1086 "bison_parser.y"
+#line 1130 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4779 "bison_parser.cpp"
+#line 4852 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1091 "bison_parser.y"
+#line 1135 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4787 "bison_parser.cpp"
+#line 4860 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1095 "bison_parser.y"
+#line 1139 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4796,23 +4869,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4800 "bison_parser.cpp"
+#line 4873 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1103 "bison_parser.y"
+#line 1147 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4806 "bison_parser.cpp"
+#line 4879 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1104 "bison_parser.y"
+#line 1148 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4812 "bison_parser.cpp"
+#line 4885 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1106 "bison_parser.y"
+#line 1150 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4821,519 +4894,519 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4825 "bison_parser.cpp"
+#line 4898 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1117 "bison_parser.y"
+#line 1161 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4831 "bison_parser.cpp"
+#line 4904 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1119 "bison_parser.y"
+#line 1163 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4839 "bison_parser.cpp"
+#line 4912 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1125 "bison_parser.y"
+#line 1169 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4845 "bison_parser.cpp"
+#line 4918 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1126 "bison_parser.y"
+#line 1170 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4851 "bison_parser.cpp"
+#line 4924 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1127 "bison_parser.y"
+#line 1171 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4857 "bison_parser.cpp"
+#line 4930 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1128 "bison_parser.y"
+#line 1172 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4863 "bison_parser.cpp"
+#line 4936 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1129 "bison_parser.y"
+#line 1173 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4869 "bison_parser.cpp"
+#line 4942 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1131 "bison_parser.y"
+#line 1175 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4875 "bison_parser.cpp"
+#line 4948 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1132 "bison_parser.y"
+#line 1176 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4881 "bison_parser.cpp"
+#line 4954 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1133 "bison_parser.y"
+#line 1177 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4887 "bison_parser.cpp"
+#line 4960 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1134 "bison_parser.y"
+#line 1178 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4893 "bison_parser.cpp"
+#line 4966 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1135 "bison_parser.y"
+#line 1179 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4899 "bison_parser.cpp"
+#line 4972 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1136 "bison_parser.y"
+#line 1180 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4905 "bison_parser.cpp"
+#line 4978 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1137 "bison_parser.y"
+#line 1181 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4911 "bison_parser.cpp"
+#line 4984 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1138 "bison_parser.y"
+#line 1182 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4917 "bison_parser.cpp"
+#line 4990 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1139 "bison_parser.y"
+#line 1183 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4923 "bison_parser.cpp"
+#line 4996 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1140 "bison_parser.y"
+#line 1184 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 4929 "bison_parser.cpp"
+#line 5002 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1142 "bison_parser.y"
+#line 1186 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 4935 "bison_parser.cpp"
+#line 5008 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1143 "bison_parser.y"
+#line 1187 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 4941 "bison_parser.cpp"
+#line 5014 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1145 "bison_parser.y"
+#line 1189 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 4947 "bison_parser.cpp"
+#line 5020 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1146 "bison_parser.y"
+#line 1190 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 4953 "bison_parser.cpp"
+#line 5026 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1147 "bison_parser.y"
+#line 1191 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 4959 "bison_parser.cpp"
+#line 5032 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1148 "bison_parser.y"
+#line 1192 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 4965 "bison_parser.cpp"
+#line 5038 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1152 "bison_parser.y"
+#line 1196 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 4971 "bison_parser.cpp"
+#line 5044 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1153 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4977 "bison_parser.cpp"
+#line 5050 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1154 "bison_parser.y"
+#line 1198 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 4983 "bison_parser.cpp"
+#line 5056 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1155 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 4989 "bison_parser.cpp"
+#line 5062 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1157 "bison_parser.y"
+#line 1201 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 4995 "bison_parser.cpp"
+#line 5068 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1158 "bison_parser.y"
+#line 1202 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5001 "bison_parser.cpp"
+#line 5074 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1160 "bison_parser.y"
+#line 1204 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5007 "bison_parser.cpp"
+#line 5080 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1161 "bison_parser.y"
+#line 1205 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5013 "bison_parser.cpp"
+#line 5086 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1163 "bison_parser.y"
+#line 1207 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5019 "bison_parser.cpp"
+#line 5092 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1164 "bison_parser.y"
+#line 1208 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5025 "bison_parser.cpp"
+#line 5098 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1165 "bison_parser.y"
+#line 1209 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5031 "bison_parser.cpp"
+#line 5104 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1166 "bison_parser.y"
+#line 1210 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5037 "bison_parser.cpp"
+#line 5110 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1167 "bison_parser.y"
+#line 1211 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5043 "bison_parser.cpp"
+#line 5116 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1168 "bison_parser.y"
+#line 1212 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5049 "bison_parser.cpp"
+#line 5122 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1169 "bison_parser.y"
+#line 1213 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5055 "bison_parser.cpp"
+#line 5128 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1173 "bison_parser.y"
+#line 1217 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5061 "bison_parser.cpp"
+#line 5134 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1174 "bison_parser.y"
+#line 1218 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5067 "bison_parser.cpp"
+#line 5140 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1175 "bison_parser.y"
+#line 1219 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5073 "bison_parser.cpp"
+#line 5146 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1176 "bison_parser.y"
+#line 1220 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5079 "bison_parser.cpp"
+#line 5152 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1180 "bison_parser.y"
+#line 1224 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5085 "bison_parser.cpp"
+#line 5158 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1181 "bison_parser.y"
+#line 1225 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5091 "bison_parser.cpp"
+#line 5164 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1183 "bison_parser.y"
+#line 1227 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5097 "bison_parser.cpp"
+#line 5170 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1184 "bison_parser.y"
+#line 1228 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5103 "bison_parser.cpp"
+#line 5176 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1189 "bison_parser.y"
+#line 1233 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5109 "bison_parser.cpp"
+#line 5182 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1190 "bison_parser.y"
+#line 1234 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5115 "bison_parser.cpp"
+#line 5188 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1191 "bison_parser.y"
+#line 1235 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5123 "bison_parser.cpp"
+#line 5196 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1195 "bison_parser.y"
+#line 1239 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5129 "bison_parser.cpp"
+#line 5202 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1196 "bison_parser.y"
+#line 1240 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5135 "bison_parser.cpp"
+#line 5208 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1197 "bison_parser.y"
+#line 1241 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5141 "bison_parser.cpp"
+#line 5214 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1199 "bison_parser.y"
+#line 1243 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5147 "bison_parser.cpp"
+#line 5220 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1200 "bison_parser.y"
+#line 1244 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5153 "bison_parser.cpp"
+#line 5226 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1201 "bison_parser.y"
+#line 1245 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5159 "bison_parser.cpp"
+#line 5232 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1202 "bison_parser.y"
+#line 1246 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5165 "bison_parser.cpp"
+#line 5238 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1203 "bison_parser.y"
+#line 1247 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5171 "bison_parser.cpp"
+#line 5244 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1205 "bison_parser.y"
+#line 1249 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5177 "bison_parser.cpp"
+#line 5250 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1207 "bison_parser.y"
+#line 1251 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5183 "bison_parser.cpp"
+#line 5256 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1209 "bison_parser.y"
+#line 1253 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5189 "bison_parser.cpp"
+#line 5262 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1210 "bison_parser.y"
+#line 1254 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5195 "bison_parser.cpp"
+#line 5268 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1211 "bison_parser.y"
+#line 1255 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5201 "bison_parser.cpp"
+#line 5274 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1212 "bison_parser.y"
+#line 1256 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5207 "bison_parser.cpp"
+#line 5280 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1213 "bison_parser.y"
+#line 1257 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5213 "bison_parser.cpp"
+#line 5286 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1214 "bison_parser.y"
+#line 1258 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5219 "bison_parser.cpp"
+#line 5292 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1216 "bison_parser.y"
+#line 1260 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5225 "bison_parser.cpp"
+#line 5298 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1217 "bison_parser.y"
+#line 1261 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5231 "bison_parser.cpp"
+#line 5304 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1218 "bison_parser.y"
+#line 1262 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5237 "bison_parser.cpp"
+#line 5310 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1219 "bison_parser.y"
+#line 1263 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5243 "bison_parser.cpp"
+#line 5316 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1220 "bison_parser.y"
+#line 1264 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5249 "bison_parser.cpp"
+#line 5322 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1221 "bison_parser.y"
+#line 1265 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5255 "bison_parser.cpp"
+#line 5328 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1225 "bison_parser.y"
+#line 1269 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5261 "bison_parser.cpp"
+#line 5334 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1227 "bison_parser.y"
+#line 1271 "bison_parser.y"
                                           { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
-#line 5267 "bison_parser.cpp"
+#line 5340 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1229 "bison_parser.y"
+#line 1273 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5273 "bison_parser.cpp"
+#line 5346 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1231 "bison_parser.y"
+#line 1275 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5279 "bison_parser.cpp"
+#line 5352 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1232 "bison_parser.y"
+#line 1276 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5285 "bison_parser.cpp"
+#line 5358 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1233 "bison_parser.y"
+#line 1277 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5291 "bison_parser.cpp"
+#line 5364 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1234 "bison_parser.y"
+#line 1278 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5297 "bison_parser.cpp"
+#line 5370 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1238 "bison_parser.y"
+#line 1282 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5303 "bison_parser.cpp"
+#line 5376 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1240 "bison_parser.y"
+#line 1284 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5309 "bison_parser.cpp"
+#line 5382 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1241 "bison_parser.y"
+#line 1285 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5315 "bison_parser.cpp"
+#line 5388 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1243 "bison_parser.y"
+#line 1287 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5321 "bison_parser.cpp"
+#line 5394 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1246 "bison_parser.y"
+#line 1290 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5327 "bison_parser.cpp"
+#line 5400 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1248 "bison_parser.y"
+#line 1292 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5333 "bison_parser.cpp"
+#line 5406 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1250 "bison_parser.y"
+#line 1294 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5344,17 +5417,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5348 "bison_parser.cpp"
+#line 5421 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1261 "bison_parser.y"
+#line 1305 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5354 "bison_parser.cpp"
+#line 5427 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1262 "bison_parser.y"
+#line 1306 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5366,11 +5439,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5370 "bison_parser.cpp"
+#line 5443 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1273 "bison_parser.y"
+#line 1317 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5402,61 +5475,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5406 "bison_parser.cpp"
+#line 5479 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1305 "bison_parser.y"
+#line 1349 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5416 "bison_parser.cpp"
+#line 5489 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1314 "bison_parser.y"
+#line 1358 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5427 "bison_parser.cpp"
+#line 5500 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1323 "bison_parser.y"
+#line 1367 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5438 "bison_parser.cpp"
+#line 5511 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1330 "bison_parser.y"
+#line 1374 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5447 "bison_parser.cpp"
+#line 5520 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1334 "bison_parser.y"
+#line 1378 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5456 "bison_parser.cpp"
+#line 5529 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1339 "bison_parser.y"
+#line 1383 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5464,215 +5537,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5468 "bison_parser.cpp"
+#line 5541 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1347 "bison_parser.y"
+#line 1391 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5478 "bison_parser.cpp"
+#line 5551 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1353 "bison_parser.y"
+#line 1397 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5487 "bison_parser.cpp"
+#line 5560 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1357 "bison_parser.y"
+#line 1401 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5496 "bison_parser.cpp"
+#line 5569 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1362 "bison_parser.y"
+#line 1406 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5502 "bison_parser.cpp"
+#line 5575 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1363 "bison_parser.y"
+#line 1407 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5508 "bison_parser.cpp"
+#line 5581 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1365 "bison_parser.y"
+#line 1409 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5514 "bison_parser.cpp"
+#line 5587 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1367 "bison_parser.y"
+#line 1411 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5520 "bison_parser.cpp"
+#line 5593 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1369 "bison_parser.y"
+#line 1413 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5526 "bison_parser.cpp"
+#line 5599 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1370 "bison_parser.y"
+#line 1414 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5532 "bison_parser.cpp"
+#line 5605 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1372 "bison_parser.y"
+#line 1416 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5538 "bison_parser.cpp"
+#line 5611 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1378 "bison_parser.y"
+#line 1422 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5544 "bison_parser.cpp"
+#line 5617 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1379 "bison_parser.y"
+#line 1423 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5550 "bison_parser.cpp"
+#line 5623 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1381 "bison_parser.y"
+#line 1425 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5559 "bison_parser.cpp"
+#line 5632 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1385 "bison_parser.y"
+#line 1429 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5568 "bison_parser.cpp"
+#line 5641 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1390 "bison_parser.y"
+#line 1434 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5579 "bison_parser.cpp"
+#line 5652 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1396 "bison_parser.y"
+#line 1440 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5590 "bison_parser.cpp"
+#line 5663 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1403 "bison_parser.y"
+#line 1447 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5596 "bison_parser.cpp"
+#line 5669 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1404 "bison_parser.y"
+#line 1448 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5602 "bison_parser.cpp"
+#line 5675 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1405 "bison_parser.y"
+#line 1449 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5608 "bison_parser.cpp"
+#line 5681 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1406 "bison_parser.y"
+#line 1450 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5614 "bison_parser.cpp"
+#line 5687 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1408 "bison_parser.y"
+#line 1452 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5620 "bison_parser.cpp"
+#line 5693 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1409 "bison_parser.y"
+#line 1453 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5626 "bison_parser.cpp"
+#line 5699 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1410 "bison_parser.y"
+#line 1454 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5632 "bison_parser.cpp"
+#line 5705 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1416 "bison_parser.y"
+#line 1460 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5638 "bison_parser.cpp"
+#line 5711 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1418 "bison_parser.y"
+#line 1462 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5644 "bison_parser.cpp"
+#line 5717 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1420 "bison_parser.y"
+#line 1464 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5653 "bison_parser.cpp"
+#line 5726 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1424 "bison_parser.y"
+#line 1468 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5662 "bison_parser.cpp"
+#line 5735 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1429 "bison_parser.y"
+#line 1473 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5672 "bison_parser.cpp"
+#line 5745 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1439 "bison_parser.y"
+#line 1483 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5680,11 +5753,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5684 "bison_parser.cpp"
+#line 5757 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1446 "bison_parser.y"
+#line 1490 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5693,11 +5766,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5697 "bison_parser.cpp"
+#line 5770 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1454 "bison_parser.y"
+#line 1498 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5706,89 +5779,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5710 "bison_parser.cpp"
+#line 5783 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1463 "bison_parser.y"
+#line 1507 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5716 "bison_parser.cpp"
+#line 5789 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1464 "bison_parser.y"
+#line 1508 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5722 "bison_parser.cpp"
+#line 5795 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1465 "bison_parser.y"
+#line 1509 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5728 "bison_parser.cpp"
+#line 5801 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1466 "bison_parser.y"
+#line 1510 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5734 "bison_parser.cpp"
+#line 5807 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1467 "bison_parser.y"
+#line 1511 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5740 "bison_parser.cpp"
+#line 5813 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1468 "bison_parser.y"
+#line 1512 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5746 "bison_parser.cpp"
+#line 5819 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1469 "bison_parser.y"
+#line 1513 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5752 "bison_parser.cpp"
+#line 5825 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1470 "bison_parser.y"
+#line 1514 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5758 "bison_parser.cpp"
+#line 5831 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1471 "bison_parser.y"
+#line 1515 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5764 "bison_parser.cpp"
+#line 5837 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1472 "bison_parser.y"
+#line 1516 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5770 "bison_parser.cpp"
+#line 5843 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1483 "bison_parser.y"
+#line 1527 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5779 "bison_parser.cpp"
+#line 5852 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1487 "bison_parser.y"
+#line 1531 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5788 "bison_parser.cpp"
+#line 5861 "bison_parser.cpp"
     break;
 
 
-#line 5792 "bison_parser.cpp"
+#line 5865 "bison_parser.cpp"
 
       default: break;
     }
@@ -6017,7 +6090,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1493 "bison_parser.y"
+#line 1537 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index a6383bc..484c6f3 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -199,7 +199,51 @@
     }
   }
   delete ($$);
-} <table_vec> <table_element_vec> <update_vec> <expr_vec> <order_vec> <stmt_vec>
+} <table_vec> <table_element_vec> <expr_vec> <order_vec> <stmt_vec> <with_description_vec>
+%destructor {
+  free($$->column);
+  delete $$->value;
+  delete ($$);
+} <update_t>
+%destructor {
+  for (auto ptr : *($$)) {
+    free(ptr->column);
+    delete ptr->value;
+    delete ptr;
+  }
+  delete ($$);
+} <update_vec>
+%destructor {
+  if ($$->tables) {
+    for (auto ptr : *($$->tables)) {
+      free(ptr);
+    }
+    delete $$->tables;
+  }
+  delete ($$);
+} <locking_t>
+%destructor {
+  if ($$) {
+    for (auto ptr : *($$)) {
+      if (ptr->tables) {
+        for (auto table : *(ptr->tables)) {
+          free(table);
+        }
+        delete ptr->tables;
+      }
+      delete ptr;
+    }
+  }
+  delete ($$);
+} <locking_clause_vec>
+%destructor {
+  for (auto ptr : *($$->references)) {
+    delete ptr;
+  }
+  delete $$->references;
+  delete $$->constraints;
+  delete ($$);
+} <column_constraints_t>
 %destructor {
   free($$->second);
   delete ($$);
-- 
2.43.0


From 6d2eadeb707c5738db9f17aa78cf5c4bfdcd2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 12/25] fix: release the index literal of an array access

---
 src/parser/bison_parser.cpp | 285 ++++++++++++++++++------------------
 src/parser/bison_parser.y   |   5 +-
 2 files changed, 148 insertions(+), 142 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 8527b26..5bc9e7a 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -901,15 +901,15 @@ static const yytype_int16 yyrline[] =
     1219,  1220,  1224,  1225,  1227,  1228,  1233,  1234,  1235,  1239,
     1240,  1241,  1243,  1244,  1245,  1246,  1247,  1249,  1251,  1253,
     1254,  1255,  1256,  1257,  1258,  1260,  1261,  1262,  1263,  1264,
-    1265,  1267,  1267,  1269,  1271,  1273,  1275,  1276,  1277,  1278,
-    1280,  1280,  1280,  1280,  1280,  1280,  1280,  1282,  1284,  1285,
-    1287,  1288,  1290,  1292,  1294,  1305,  1306,  1317,  1349,  1358,
-    1358,  1365,  1365,  1367,  1367,  1374,  1378,  1383,  1391,  1397,
-    1401,  1406,  1407,  1409,  1409,  1411,  1411,  1413,  1414,  1416,
-    1416,  1422,  1423,  1425,  1429,  1434,  1440,  1447,  1448,  1449,
-    1450,  1452,  1453,  1454,  1460,  1460,  1462,  1464,  1468,  1473,
-    1483,  1490,  1498,  1507,  1508,  1509,  1510,  1511,  1512,  1513,
-    1514,  1515,  1516,  1518,  1524,  1524,  1527,  1531
+    1265,  1267,  1267,  1269,  1271,  1276,  1278,  1279,  1280,  1281,
+    1283,  1283,  1283,  1283,  1283,  1283,  1283,  1285,  1287,  1288,
+    1290,  1291,  1293,  1295,  1297,  1308,  1309,  1320,  1352,  1361,
+    1361,  1368,  1368,  1370,  1370,  1377,  1381,  1386,  1394,  1400,
+    1404,  1409,  1410,  1412,  1412,  1414,  1414,  1416,  1417,  1419,
+    1419,  1425,  1426,  1428,  1432,  1437,  1443,  1450,  1451,  1452,
+    1453,  1455,  1456,  1457,  1463,  1463,  1465,  1467,  1471,  1476,
+    1486,  1493,  1501,  1510,  1511,  1512,  1513,  1514,  1515,  1516,
+    1517,  1518,  1519,  1521,  1527,  1527,  1530,  1534
 };
 #endif
 
@@ -5335,78 +5335,81 @@ yyreduce:
 
   case 274: /* array_index: operand '[' int_literal ']'  */
 #line 1271 "bison_parser.y"
-                                          { (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival); }
-#line 5340 "bison_parser.cpp"
+                                          {
+  (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
+  delete (yyvsp[-1].expr);
+}
+#line 5343 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1273 "bison_parser.y"
+#line 1276 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5346 "bison_parser.cpp"
+#line 5349 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1275 "bison_parser.y"
+#line 1278 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5352 "bison_parser.cpp"
+#line 5355 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1276 "bison_parser.y"
+#line 1279 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5358 "bison_parser.cpp"
+#line 5361 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1277 "bison_parser.y"
+#line 1280 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5364 "bison_parser.cpp"
+#line 5367 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1278 "bison_parser.y"
+#line 1281 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5370 "bison_parser.cpp"
+#line 5373 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1282 "bison_parser.y"
+#line 1285 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5376 "bison_parser.cpp"
+#line 5379 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1284 "bison_parser.y"
+#line 1287 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5382 "bison_parser.cpp"
+#line 5385 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1285 "bison_parser.y"
+#line 1288 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5388 "bison_parser.cpp"
+#line 5391 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1287 "bison_parser.y"
+#line 1290 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5394 "bison_parser.cpp"
+#line 5397 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1290 "bison_parser.y"
+#line 1293 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5400 "bison_parser.cpp"
+#line 5403 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1292 "bison_parser.y"
+#line 1295 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5406 "bison_parser.cpp"
+#line 5409 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1294 "bison_parser.y"
+#line 1297 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5417,17 +5420,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5421 "bison_parser.cpp"
+#line 5424 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1305 "bison_parser.y"
+#line 1308 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5427 "bison_parser.cpp"
+#line 5430 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1306 "bison_parser.y"
+#line 1309 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5439,11 +5442,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5443 "bison_parser.cpp"
+#line 5446 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1317 "bison_parser.y"
+#line 1320 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5475,61 +5478,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5479 "bison_parser.cpp"
+#line 5482 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1349 "bison_parser.y"
+#line 1352 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5489 "bison_parser.cpp"
+#line 5492 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1358 "bison_parser.y"
+#line 1361 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5500 "bison_parser.cpp"
+#line 5503 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1367 "bison_parser.y"
+#line 1370 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5511 "bison_parser.cpp"
+#line 5514 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1374 "bison_parser.y"
+#line 1377 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5520 "bison_parser.cpp"
+#line 5523 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1378 "bison_parser.y"
+#line 1381 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5529 "bison_parser.cpp"
+#line 5532 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1383 "bison_parser.y"
+#line 1386 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5537,215 +5540,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5541 "bison_parser.cpp"
+#line 5544 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1391 "bison_parser.y"
+#line 1394 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5551 "bison_parser.cpp"
+#line 5554 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1397 "bison_parser.y"
+#line 1400 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5560 "bison_parser.cpp"
+#line 5563 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1401 "bison_parser.y"
+#line 1404 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5569 "bison_parser.cpp"
+#line 5572 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1406 "bison_parser.y"
+#line 1409 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5575 "bison_parser.cpp"
+#line 5578 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1407 "bison_parser.y"
+#line 1410 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5581 "bison_parser.cpp"
+#line 5584 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1409 "bison_parser.y"
+#line 1412 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5587 "bison_parser.cpp"
+#line 5590 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1411 "bison_parser.y"
+#line 1414 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5593 "bison_parser.cpp"
+#line 5596 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1413 "bison_parser.y"
+#line 1416 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5599 "bison_parser.cpp"
+#line 5602 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1414 "bison_parser.y"
+#line 1417 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5605 "bison_parser.cpp"
+#line 5608 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1416 "bison_parser.y"
+#line 1419 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5611 "bison_parser.cpp"
+#line 5614 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1422 "bison_parser.y"
+#line 1425 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5617 "bison_parser.cpp"
+#line 5620 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1423 "bison_parser.y"
+#line 1426 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5623 "bison_parser.cpp"
+#line 5626 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1425 "bison_parser.y"
+#line 1428 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5632 "bison_parser.cpp"
+#line 5635 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1429 "bison_parser.y"
+#line 1432 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5641 "bison_parser.cpp"
+#line 5644 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1434 "bison_parser.y"
+#line 1437 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5652 "bison_parser.cpp"
+#line 5655 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1440 "bison_parser.y"
+#line 1443 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5663 "bison_parser.cpp"
+#line 5666 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1447 "bison_parser.y"
+#line 1450 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5669 "bison_parser.cpp"
+#line 5672 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1448 "bison_parser.y"
+#line 1451 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5675 "bison_parser.cpp"
+#line 5678 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1449 "bison_parser.y"
+#line 1452 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5681 "bison_parser.cpp"
+#line 5684 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1450 "bison_parser.y"
+#line 1453 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5687 "bison_parser.cpp"
+#line 5690 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1452 "bison_parser.y"
+#line 1455 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5693 "bison_parser.cpp"
+#line 5696 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1453 "bison_parser.y"
+#line 1456 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5699 "bison_parser.cpp"
+#line 5702 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1454 "bison_parser.y"
+#line 1457 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5705 "bison_parser.cpp"
+#line 5708 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1460 "bison_parser.y"
+#line 1463 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5711 "bison_parser.cpp"
+#line 5714 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1462 "bison_parser.y"
+#line 1465 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5717 "bison_parser.cpp"
+#line 5720 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1464 "bison_parser.y"
+#line 1467 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5726 "bison_parser.cpp"
+#line 5729 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1468 "bison_parser.y"
+#line 1471 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5735 "bison_parser.cpp"
+#line 5738 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1473 "bison_parser.y"
+#line 1476 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5745 "bison_parser.cpp"
+#line 5748 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1483 "bison_parser.y"
+#line 1486 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5753,11 +5756,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5757 "bison_parser.cpp"
+#line 5760 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1490 "bison_parser.y"
+#line 1493 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5766,11 +5769,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5770 "bison_parser.cpp"
+#line 5773 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1498 "bison_parser.y"
+#line 1501 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5779,89 +5782,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5783 "bison_parser.cpp"
+#line 5786 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1507 "bison_parser.y"
+#line 1510 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5789 "bison_parser.cpp"
+#line 5792 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1508 "bison_parser.y"
+#line 1511 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5795 "bison_parser.cpp"
+#line 5798 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1509 "bison_parser.y"
+#line 1512 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5801 "bison_parser.cpp"
+#line 5804 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1510 "bison_parser.y"
+#line 1513 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5807 "bison_parser.cpp"
+#line 5810 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1511 "bison_parser.y"
+#line 1514 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5813 "bison_parser.cpp"
+#line 5816 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1512 "bison_parser.y"
+#line 1515 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5819 "bison_parser.cpp"
+#line 5822 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1513 "bison_parser.y"
+#line 1516 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5825 "bison_parser.cpp"
+#line 5828 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1514 "bison_parser.y"
+#line 1517 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5831 "bison_parser.cpp"
+#line 5834 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1515 "bison_parser.y"
+#line 1518 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5837 "bison_parser.cpp"
+#line 5840 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1516 "bison_parser.y"
+#line 1519 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5843 "bison_parser.cpp"
+#line 5846 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1527 "bison_parser.y"
+#line 1530 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5852 "bison_parser.cpp"
+#line 5855 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1531 "bison_parser.y"
+#line 1534 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5861 "bison_parser.cpp"
+#line 5864 "bison_parser.cpp"
     break;
 
 
-#line 5865 "bison_parser.cpp"
+#line 5868 "bison_parser.cpp"
 
       default: break;
     }
@@ -6090,7 +6093,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1537 "bison_parser.y"
+#line 1540 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 484c6f3..4994bcf 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -1268,7 +1268,10 @@ duration_field : datetime_field | datetime_field_plural;
 
 array_expr : ARRAY '[' expr_list ']' { $$ = Expr::makeArray($3); };
 
-array_index : operand '[' int_literal ']' { $$ = Expr::makeArrayIndex($1, $3->ival); };
+array_index : operand '[' int_literal ']' {
+  $$ = Expr::makeArrayIndex($1, $3->ival);
+  delete $3;
+};
 
 between_expr : operand BETWEEN operand AND operand { $$ = Expr::makeBetween($1, $3, $5); };
 
-- 
2.43.0


From 6b48c715699a3a947954ed57e178695da9c7f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 13/25] fix: keep the schema of the table in CREATE INDEX

---
 src/parser/bison_parser.cpp | 1097 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |    1 +
 2 files changed, 550 insertions(+), 548 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 5bc9e7a..af940bb 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -879,37 +879,37 @@ static const yytype_int16 yyrline[] =
      446,   447,   449,   453,   458,   462,   472,   473,   474,   476,
      476,   482,   488,   490,   494,   506,   512,   529,   544,   546,
      547,   548,   550,   564,   568,   578,   582,   606,   614,   627,
-     634,   649,   669,   670,   675,   686,   699,   711,   718,   725,
-     734,   735,   737,   741,   746,   747,   749,   757,   758,   759,
-     760,   761,   762,   763,   767,   768,   769,   770,   771,   772,
-     773,   774,   775,   776,   777,   779,   780,   782,   783,   784,
-     786,   787,   789,   793,   797,   802,   810,   811,   812,   813,
-     815,   816,   817,   819,   827,   833,   839,   845,   851,   852,
-     859,   865,   867,   877,   884,   895,   902,   910,   911,   918,
-     925,   929,   934,   944,   948,   952,   964,   964,   966,   967,
-     976,   977,   979,   993,  1005,  1010,  1014,  1018,  1023,  1024,
-    1026,  1036,  1037,  1039,  1041,  1042,  1044,  1046,  1047,  1049,
-    1054,  1056,  1057,  1059,  1060,  1062,  1066,  1071,  1073,  1074,
-    1075,  1077,  1078,  1100,  1101,  1103,  1104,  1105,  1106,  1107,
-    1108,  1113,  1117,  1123,  1124,  1126,  1130,  1135,  1135,  1139,
-    1147,  1148,  1150,  1159,  1159,  1159,  1159,  1159,  1161,  1162,
-    1162,  1162,  1162,  1162,  1162,  1162,  1162,  1163,  1163,  1167,
-    1167,  1169,  1170,  1171,  1172,  1173,  1175,  1175,  1176,  1177,
-    1178,  1179,  1180,  1181,  1182,  1183,  1184,  1186,  1187,  1189,
-    1190,  1191,  1192,  1196,  1197,  1198,  1199,  1201,  1202,  1204,
-    1205,  1207,  1208,  1209,  1210,  1211,  1212,  1213,  1217,  1218,
-    1219,  1220,  1224,  1225,  1227,  1228,  1233,  1234,  1235,  1239,
-    1240,  1241,  1243,  1244,  1245,  1246,  1247,  1249,  1251,  1253,
-    1254,  1255,  1256,  1257,  1258,  1260,  1261,  1262,  1263,  1264,
-    1265,  1267,  1267,  1269,  1271,  1276,  1278,  1279,  1280,  1281,
-    1283,  1283,  1283,  1283,  1283,  1283,  1283,  1285,  1287,  1288,
-    1290,  1291,  1293,  1295,  1297,  1308,  1309,  1320,  1352,  1361,
-    1361,  1368,  1368,  1370,  1370,  1377,  1381,  1386,  1394,  1400,
-    1404,  1409,  1410,  1412,  1412,  1414,  1414,  1416,  1417,  1419,
-    1419,  1425,  1426,  1428,  1432,  1437,  1443,  1450,  1451,  1452,
-    1453,  1455,  1456,  1457,  1463,  1463,  1465,  1467,  1471,  1476,
-    1486,  1493,  1501,  1510,  1511,  1512,  1513,  1514,  1515,  1516,
-    1517,  1518,  1519,  1521,  1527,  1527,  1530,  1534
+     634,   649,   669,   670,   675,   686,   699,   711,   718,   726,
+     735,   736,   738,   742,   747,   748,   750,   758,   759,   760,
+     761,   762,   763,   764,   768,   769,   770,   771,   772,   773,
+     774,   775,   776,   777,   778,   780,   781,   783,   784,   785,
+     787,   788,   790,   794,   798,   803,   811,   812,   813,   814,
+     816,   817,   818,   820,   828,   834,   840,   846,   852,   853,
+     860,   866,   868,   878,   885,   896,   903,   911,   912,   919,
+     926,   930,   935,   945,   949,   953,   965,   965,   967,   968,
+     977,   978,   980,   994,  1006,  1011,  1015,  1019,  1024,  1025,
+    1027,  1037,  1038,  1040,  1042,  1043,  1045,  1047,  1048,  1050,
+    1055,  1057,  1058,  1060,  1061,  1063,  1067,  1072,  1074,  1075,
+    1076,  1078,  1079,  1101,  1102,  1104,  1105,  1106,  1107,  1108,
+    1109,  1114,  1118,  1124,  1125,  1127,  1131,  1136,  1136,  1140,
+    1148,  1149,  1151,  1160,  1160,  1160,  1160,  1160,  1162,  1163,
+    1163,  1163,  1163,  1163,  1163,  1163,  1163,  1164,  1164,  1168,
+    1168,  1170,  1171,  1172,  1173,  1174,  1176,  1176,  1177,  1178,
+    1179,  1180,  1181,  1182,  1183,  1184,  1185,  1187,  1188,  1190,
+    1191,  1192,  1193,  1197,  1198,  1199,  1200,  1202,  1203,  1205,
+    1206,  1208,  1209,  1210,  1211,  1212,  1213,  1214,  1218,  1219,
+    1220,  1221,  1225,  1226,  1228,  1229,  1234,  1235,  1236,  1240,
+    1241,  1242,  1244,  1245,  1246,  1247,  1248,  1250,  1252,  1254,
+    1255,  1256,  1257,  1258,  1259,  1261,  1262,  1263,  1264,  1265,
+    1266,  1268,  1268,  1270,  1272,  1277,  1279,  1280,  1281,  1282,
+    1284,  1284,  1284,  1284,  1284,  1284,  1284,  1286,  1288,  1289,
+    1291,  1292,  1294,  1296,  1298,  1309,  1310,  1321,  1353,  1362,
+    1362,  1369,  1369,  1371,  1371,  1378,  1382,  1387,  1395,  1401,
+    1405,  1410,  1411,  1413,  1413,  1415,  1415,  1417,  1418,  1420,
+    1420,  1426,  1427,  1429,  1433,  1438,  1444,  1451,  1452,  1453,
+    1454,  1456,  1457,  1458,  1464,  1464,  1466,  1468,  1472,  1477,
+    1487,  1494,  1502,  1511,  1512,  1513,  1514,  1515,  1516,  1517,
+    1518,  1519,  1520,  1522,  1528,  1528,  1531,  1535
 };
 #endif
 
@@ -3950,14 +3950,15 @@ yyreduce:
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-6].bval);
+  (yyval.create_stmt)->schema = (yyvsp[-3].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3957 "bison_parser.cpp"
+#line 3958 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 725 "bison_parser.y"
+#line 726 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3966,53 +3967,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3970 "bison_parser.cpp"
+#line 3971 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 734 "bison_parser.y"
+#line 735 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3976 "bison_parser.cpp"
+#line 3977 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 735 "bison_parser.y"
+#line 736 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3982 "bison_parser.cpp"
+#line 3983 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 737 "bison_parser.y"
+#line 738 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3991 "bison_parser.cpp"
+#line 3992 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 741 "bison_parser.y"
+#line 742 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 4000 "bison_parser.cpp"
+#line 4001 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 746 "bison_parser.y"
+#line 747 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 4006 "bison_parser.cpp"
+#line 4007 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 747 "bison_parser.y"
+#line 748 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 4012 "bison_parser.cpp"
+#line 4013 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 749 "bison_parser.y"
+#line 750 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -4020,192 +4021,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 4024 "bison_parser.cpp"
+#line 4025 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 757 "bison_parser.y"
+#line 758 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 4030 "bison_parser.cpp"
+#line 4031 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 758 "bison_parser.y"
+#line 759 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 4036 "bison_parser.cpp"
+#line 4037 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 759 "bison_parser.y"
+#line 760 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 4042 "bison_parser.cpp"
+#line 4043 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 760 "bison_parser.y"
+#line 761 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4048 "bison_parser.cpp"
+#line 4049 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 761 "bison_parser.y"
+#line 762 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 4054 "bison_parser.cpp"
+#line 4055 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 762 "bison_parser.y"
+#line 763 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4060 "bison_parser.cpp"
+#line 4061 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 763 "bison_parser.y"
+#line 764 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 4069 "bison_parser.cpp"
+#line 4070 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 767 "bison_parser.y"
+#line 768 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4075 "bison_parser.cpp"
+#line 4076 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 768 "bison_parser.y"
+#line 769 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4081 "bison_parser.cpp"
+#line 4082 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 769 "bison_parser.y"
+#line 770 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4087 "bison_parser.cpp"
+#line 4088 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 770 "bison_parser.y"
+#line 771 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4093 "bison_parser.cpp"
+#line 4094 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 771 "bison_parser.y"
+#line 772 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4099 "bison_parser.cpp"
+#line 4100 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 772 "bison_parser.y"
+#line 773 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4105 "bison_parser.cpp"
+#line 4106 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 773 "bison_parser.y"
+#line 774 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4111 "bison_parser.cpp"
+#line 4112 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 774 "bison_parser.y"
+#line 775 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4117 "bison_parser.cpp"
+#line 4118 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 775 "bison_parser.y"
+#line 776 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4123 "bison_parser.cpp"
+#line 4124 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 776 "bison_parser.y"
+#line 777 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4129 "bison_parser.cpp"
+#line 4130 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 777 "bison_parser.y"
+#line 778 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4135 "bison_parser.cpp"
+#line 4136 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 779 "bison_parser.y"
+#line 780 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4141 "bison_parser.cpp"
+#line 4142 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 780 "bison_parser.y"
+#line 781 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4147 "bison_parser.cpp"
+#line 4148 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 782 "bison_parser.y"
+#line 783 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4153 "bison_parser.cpp"
+#line 4154 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 783 "bison_parser.y"
+#line 784 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4159 "bison_parser.cpp"
+#line 4160 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 784 "bison_parser.y"
+#line 785 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4165 "bison_parser.cpp"
+#line 4166 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 786 "bison_parser.y"
+#line 787 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4171 "bison_parser.cpp"
+#line 4172 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 787 "bison_parser.y"
+#line 788 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4177 "bison_parser.cpp"
+#line 4178 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 789 "bison_parser.y"
+#line 790 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4186 "bison_parser.cpp"
+#line 4187 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 793 "bison_parser.y"
+#line 794 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4195 "bison_parser.cpp"
+#line 4196 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 797 "bison_parser.y"
+#line 798 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4205 "bison_parser.cpp"
+#line 4206 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 802 "bison_parser.y"
+#line 803 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4213,159 +4214,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4217 "bison_parser.cpp"
+#line 4218 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 810 "bison_parser.y"
+#line 811 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4223 "bison_parser.cpp"
+#line 4224 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 811 "bison_parser.y"
+#line 812 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4229 "bison_parser.cpp"
+#line 4230 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 812 "bison_parser.y"
+#line 813 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4235 "bison_parser.cpp"
+#line 4236 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 813 "bison_parser.y"
+#line 814 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4241 "bison_parser.cpp"
+#line 4242 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 815 "bison_parser.y"
+#line 816 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4247 "bison_parser.cpp"
+#line 4248 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 816 "bison_parser.y"
+#line 817 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4253 "bison_parser.cpp"
+#line 4254 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 817 "bison_parser.y"
+#line 818 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4259 "bison_parser.cpp"
+#line 4260 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 819 "bison_parser.y"
+#line 820 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4265 "bison_parser.cpp"
+#line 4266 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 827 "bison_parser.y"
+#line 828 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4276 "bison_parser.cpp"
+#line 4277 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 833 "bison_parser.y"
+#line 834 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4287 "bison_parser.cpp"
+#line 4288 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 839 "bison_parser.y"
+#line 840 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4297 "bison_parser.cpp"
+#line 4298 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 845 "bison_parser.y"
+#line 846 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4307 "bison_parser.cpp"
+#line 4308 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 851 "bison_parser.y"
+#line 852 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4313 "bison_parser.cpp"
+#line 4314 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 852 "bison_parser.y"
+#line 853 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4319 "bison_parser.cpp"
+#line 4320 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 859 "bison_parser.y"
+#line 860 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4329 "bison_parser.cpp"
+#line 4330 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 865 "bison_parser.y"
+#line 866 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4335 "bison_parser.cpp"
+#line 4336 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 867 "bison_parser.y"
+#line 868 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4344 "bison_parser.cpp"
+#line 4345 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 877 "bison_parser.y"
+#line 878 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4355 "bison_parser.cpp"
+#line 4356 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 884 "bison_parser.y"
+#line 885 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4365 "bison_parser.cpp"
+#line 4366 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 895 "bison_parser.y"
+#line 896 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4373,11 +4374,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4377 "bison_parser.cpp"
+#line 4378 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 902 "bison_parser.y"
+#line 903 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4385,80 +4386,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4389 "bison_parser.cpp"
+#line 4390 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 910 "bison_parser.y"
+#line 911 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4395 "bison_parser.cpp"
+#line 4396 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 911 "bison_parser.y"
+#line 912 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4401 "bison_parser.cpp"
+#line 4402 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 918 "bison_parser.y"
+#line 919 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4412 "bison_parser.cpp"
+#line 4413 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 925 "bison_parser.y"
+#line 926 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4421 "bison_parser.cpp"
+#line 4422 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 929 "bison_parser.y"
+#line 930 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4430 "bison_parser.cpp"
+#line 4431 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 934 "bison_parser.y"
+#line 935 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4440 "bison_parser.cpp"
+#line 4441 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 944 "bison_parser.y"
+#line 945 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4449 "bison_parser.cpp"
+#line 4450 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 948 "bison_parser.y"
+#line 949 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4458 "bison_parser.cpp"
+#line 4459 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 952 "bison_parser.y"
+#line 953 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4470,17 +4471,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4474 "bison_parser.cpp"
+#line 4475 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 966 "bison_parser.y"
+#line 967 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4480 "bison_parser.cpp"
+#line 4481 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 967 "bison_parser.y"
+#line 968 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4489,23 +4490,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4493 "bison_parser.cpp"
+#line 4494 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 976 "bison_parser.y"
+#line 977 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4499 "bison_parser.cpp"
+#line 4500 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 977 "bison_parser.y"
+#line 978 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4505 "bison_parser.cpp"
+#line 4506 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 979 "bison_parser.y"
+#line 980 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4520,11 +4521,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4524 "bison_parser.cpp"
+#line 4525 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 993 "bison_parser.y"
+#line 994 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4536,59 +4537,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4540 "bison_parser.cpp"
+#line 4541 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 1005 "bison_parser.y"
+#line 1006 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4549 "bison_parser.cpp"
+#line 4550 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 1010 "bison_parser.y"
+#line 1011 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4558 "bison_parser.cpp"
+#line 4559 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 1014 "bison_parser.y"
+#line 1015 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4567 "bison_parser.cpp"
+#line 4568 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 1018 "bison_parser.y"
+#line 1019 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4576 "bison_parser.cpp"
+#line 4577 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 1023 "bison_parser.y"
+#line 1024 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4582 "bison_parser.cpp"
+#line 4583 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 1024 "bison_parser.y"
+#line 1025 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4588 "bison_parser.cpp"
+#line 4589 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 1026 "bison_parser.y"
+#line 1027 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4598,141 +4599,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4602 "bison_parser.cpp"
+#line 4603 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1036 "bison_parser.y"
+#line 1037 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4608 "bison_parser.cpp"
+#line 4609 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1037 "bison_parser.y"
+#line 1038 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4614 "bison_parser.cpp"
+#line 4615 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1041 "bison_parser.y"
+#line 1042 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4620 "bison_parser.cpp"
+#line 4621 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1042 "bison_parser.y"
+#line 1043 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4626 "bison_parser.cpp"
+#line 4627 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1044 "bison_parser.y"
+#line 1045 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4632 "bison_parser.cpp"
+#line 4633 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1046 "bison_parser.y"
+#line 1047 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4638 "bison_parser.cpp"
+#line 4639 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1047 "bison_parser.y"
+#line 1048 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4644 "bison_parser.cpp"
+#line 4645 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1049 "bison_parser.y"
+#line 1050 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4654 "bison_parser.cpp"
+#line 4655 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1054 "bison_parser.y"
+#line 1055 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4660 "bison_parser.cpp"
+#line 4661 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1056 "bison_parser.y"
+#line 1057 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4666 "bison_parser.cpp"
+#line 4667 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1057 "bison_parser.y"
+#line 1058 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4672 "bison_parser.cpp"
+#line 4673 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1059 "bison_parser.y"
+#line 1060 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4678 "bison_parser.cpp"
+#line 4679 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1060 "bison_parser.y"
+#line 1061 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4684 "bison_parser.cpp"
+#line 4685 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1062 "bison_parser.y"
+#line 1063 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4693 "bison_parser.cpp"
+#line 4694 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1066 "bison_parser.y"
+#line 1067 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4702 "bison_parser.cpp"
+#line 4703 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1071 "bison_parser.y"
+#line 1072 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4708 "bison_parser.cpp"
+#line 4709 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1073 "bison_parser.y"
+#line 1074 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4714 "bison_parser.cpp"
+#line 4715 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1074 "bison_parser.y"
+#line 1075 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4720 "bison_parser.cpp"
+#line 4721 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1075 "bison_parser.y"
+#line 1076 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4726 "bison_parser.cpp"
+#line 4727 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1077 "bison_parser.y"
+#line 1078 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4732 "bison_parser.cpp"
+#line 4733 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1078 "bison_parser.y"
+#line 1079 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4752,115 +4753,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4756 "bison_parser.cpp"
+#line 4757 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1100 "bison_parser.y"
+#line 1101 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4762 "bison_parser.cpp"
+#line 4763 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1101 "bison_parser.y"
+#line 1102 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4768 "bison_parser.cpp"
+#line 4769 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1103 "bison_parser.y"
+#line 1104 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4774 "bison_parser.cpp"
+#line 4775 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1104 "bison_parser.y"
+#line 1105 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4780 "bison_parser.cpp"
+#line 4781 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1105 "bison_parser.y"
+#line 1106 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4786 "bison_parser.cpp"
+#line 4787 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1106 "bison_parser.y"
+#line 1107 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4792 "bison_parser.cpp"
+#line 4793 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1107 "bison_parser.y"
+#line 1108 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4798 "bison_parser.cpp"
+#line 4799 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1108 "bison_parser.y"
+#line 1109 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4804 "bison_parser.cpp"
+#line 4805 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1113 "bison_parser.y"
+#line 1114 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4813 "bison_parser.cpp"
+#line 4814 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1117 "bison_parser.y"
+#line 1118 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4822 "bison_parser.cpp"
+#line 4823 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1123 "bison_parser.y"
+#line 1124 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4828 "bison_parser.cpp"
+#line 4829 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1124 "bison_parser.y"
+#line 1125 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4834 "bison_parser.cpp"
+#line 4835 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1126 "bison_parser.y"
+#line 1127 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4843 "bison_parser.cpp"
+#line 4844 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1130 "bison_parser.y"
+#line 1131 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4852 "bison_parser.cpp"
+#line 4853 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1135 "bison_parser.y"
+#line 1136 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4860 "bison_parser.cpp"
+#line 4861 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1139 "bison_parser.y"
+#line 1140 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4869,23 +4870,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4873 "bison_parser.cpp"
+#line 4874 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1147 "bison_parser.y"
+#line 1148 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4879 "bison_parser.cpp"
+#line 4880 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1148 "bison_parser.y"
+#line 1149 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4885 "bison_parser.cpp"
+#line 4886 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1150 "bison_parser.y"
+#line 1151 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4894,522 +4895,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4898 "bison_parser.cpp"
+#line 4899 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1161 "bison_parser.y"
+#line 1162 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4904 "bison_parser.cpp"
+#line 4905 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1163 "bison_parser.y"
+#line 1164 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4912 "bison_parser.cpp"
+#line 4913 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1169 "bison_parser.y"
+#line 1170 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4918 "bison_parser.cpp"
+#line 4919 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1170 "bison_parser.y"
+#line 1171 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4924 "bison_parser.cpp"
+#line 4925 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1171 "bison_parser.y"
+#line 1172 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4930 "bison_parser.cpp"
+#line 4931 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1172 "bison_parser.y"
+#line 1173 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4936 "bison_parser.cpp"
+#line 4937 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1173 "bison_parser.y"
+#line 1174 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4942 "bison_parser.cpp"
+#line 4943 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1175 "bison_parser.y"
+#line 1176 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4948 "bison_parser.cpp"
+#line 4949 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1176 "bison_parser.y"
+#line 1177 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4954 "bison_parser.cpp"
+#line 4955 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1177 "bison_parser.y"
+#line 1178 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4960 "bison_parser.cpp"
+#line 4961 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1178 "bison_parser.y"
+#line 1179 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4966 "bison_parser.cpp"
+#line 4967 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1179 "bison_parser.y"
+#line 1180 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4972 "bison_parser.cpp"
+#line 4973 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1180 "bison_parser.y"
+#line 1181 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4978 "bison_parser.cpp"
+#line 4979 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1181 "bison_parser.y"
+#line 1182 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4984 "bison_parser.cpp"
+#line 4985 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1182 "bison_parser.y"
+#line 1183 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4990 "bison_parser.cpp"
+#line 4991 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1183 "bison_parser.y"
+#line 1184 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4996 "bison_parser.cpp"
+#line 4997 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1184 "bison_parser.y"
+#line 1185 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 5002 "bison_parser.cpp"
+#line 5003 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1186 "bison_parser.y"
+#line 1187 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 5008 "bison_parser.cpp"
+#line 5009 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1187 "bison_parser.y"
+#line 1188 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 5014 "bison_parser.cpp"
+#line 5015 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1189 "bison_parser.y"
+#line 1190 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 5020 "bison_parser.cpp"
+#line 5021 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1190 "bison_parser.y"
+#line 1191 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 5026 "bison_parser.cpp"
+#line 5027 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1191 "bison_parser.y"
+#line 1192 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 5032 "bison_parser.cpp"
+#line 5033 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1192 "bison_parser.y"
+#line 1193 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 5038 "bison_parser.cpp"
+#line 5039 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1196 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 5044 "bison_parser.cpp"
+#line 5045 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1197 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5050 "bison_parser.cpp"
+#line 5051 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1198 "bison_parser.y"
+#line 1199 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 5056 "bison_parser.cpp"
+#line 5057 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1199 "bison_parser.y"
+#line 1200 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5062 "bison_parser.cpp"
+#line 5063 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1201 "bison_parser.y"
+#line 1202 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5068 "bison_parser.cpp"
+#line 5069 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1202 "bison_parser.y"
+#line 1203 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5074 "bison_parser.cpp"
+#line 5075 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1204 "bison_parser.y"
+#line 1205 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5080 "bison_parser.cpp"
+#line 5081 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1205 "bison_parser.y"
+#line 1206 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5086 "bison_parser.cpp"
+#line 5087 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1207 "bison_parser.y"
+#line 1208 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5092 "bison_parser.cpp"
+#line 5093 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1208 "bison_parser.y"
+#line 1209 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5098 "bison_parser.cpp"
+#line 5099 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1209 "bison_parser.y"
+#line 1210 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5104 "bison_parser.cpp"
+#line 5105 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1210 "bison_parser.y"
+#line 1211 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5110 "bison_parser.cpp"
+#line 5111 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1211 "bison_parser.y"
+#line 1212 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5116 "bison_parser.cpp"
+#line 5117 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1212 "bison_parser.y"
+#line 1213 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5122 "bison_parser.cpp"
+#line 5123 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1213 "bison_parser.y"
+#line 1214 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5128 "bison_parser.cpp"
+#line 5129 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1217 "bison_parser.y"
+#line 1218 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5134 "bison_parser.cpp"
+#line 5135 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1218 "bison_parser.y"
+#line 1219 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5140 "bison_parser.cpp"
+#line 5141 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1219 "bison_parser.y"
+#line 1220 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5146 "bison_parser.cpp"
+#line 5147 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1220 "bison_parser.y"
+#line 1221 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5152 "bison_parser.cpp"
+#line 5153 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1224 "bison_parser.y"
+#line 1225 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5158 "bison_parser.cpp"
+#line 5159 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1225 "bison_parser.y"
+#line 1226 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5164 "bison_parser.cpp"
+#line 5165 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1227 "bison_parser.y"
+#line 1228 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5170 "bison_parser.cpp"
+#line 5171 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1228 "bison_parser.y"
+#line 1229 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5176 "bison_parser.cpp"
+#line 5177 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1233 "bison_parser.y"
+#line 1234 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5182 "bison_parser.cpp"
+#line 5183 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1234 "bison_parser.y"
+#line 1235 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5188 "bison_parser.cpp"
+#line 5189 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1235 "bison_parser.y"
+#line 1236 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5196 "bison_parser.cpp"
+#line 5197 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1239 "bison_parser.y"
+#line 1240 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5202 "bison_parser.cpp"
+#line 5203 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1240 "bison_parser.y"
+#line 1241 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5208 "bison_parser.cpp"
+#line 5209 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1241 "bison_parser.y"
+#line 1242 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5214 "bison_parser.cpp"
+#line 5215 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1243 "bison_parser.y"
+#line 1244 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5220 "bison_parser.cpp"
+#line 5221 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1244 "bison_parser.y"
+#line 1245 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5226 "bison_parser.cpp"
+#line 5227 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1245 "bison_parser.y"
+#line 1246 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5232 "bison_parser.cpp"
+#line 5233 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1246 "bison_parser.y"
+#line 1247 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5238 "bison_parser.cpp"
+#line 5239 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1247 "bison_parser.y"
+#line 1248 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5244 "bison_parser.cpp"
+#line 5245 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1249 "bison_parser.y"
+#line 1250 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5250 "bison_parser.cpp"
+#line 5251 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1251 "bison_parser.y"
+#line 1252 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5256 "bison_parser.cpp"
+#line 5257 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1253 "bison_parser.y"
+#line 1254 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5262 "bison_parser.cpp"
+#line 5263 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1254 "bison_parser.y"
+#line 1255 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5268 "bison_parser.cpp"
+#line 5269 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1255 "bison_parser.y"
+#line 1256 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5274 "bison_parser.cpp"
+#line 5275 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1256 "bison_parser.y"
+#line 1257 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5280 "bison_parser.cpp"
+#line 5281 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1257 "bison_parser.y"
+#line 1258 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5286 "bison_parser.cpp"
+#line 5287 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1258 "bison_parser.y"
+#line 1259 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5292 "bison_parser.cpp"
+#line 5293 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1260 "bison_parser.y"
+#line 1261 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5298 "bison_parser.cpp"
+#line 5299 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1261 "bison_parser.y"
+#line 1262 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5304 "bison_parser.cpp"
+#line 5305 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1262 "bison_parser.y"
+#line 1263 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5310 "bison_parser.cpp"
+#line 5311 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1263 "bison_parser.y"
+#line 1264 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5316 "bison_parser.cpp"
+#line 5317 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1264 "bison_parser.y"
+#line 1265 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5322 "bison_parser.cpp"
+#line 5323 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1265 "bison_parser.y"
+#line 1266 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5328 "bison_parser.cpp"
+#line 5329 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1269 "bison_parser.y"
+#line 1270 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5334 "bison_parser.cpp"
+#line 5335 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1271 "bison_parser.y"
+#line 1272 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 5343 "bison_parser.cpp"
+#line 5344 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1276 "bison_parser.y"
+#line 1277 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5349 "bison_parser.cpp"
+#line 5350 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1278 "bison_parser.y"
+#line 1279 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5355 "bison_parser.cpp"
+#line 5356 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1279 "bison_parser.y"
+#line 1280 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5361 "bison_parser.cpp"
+#line 5362 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1280 "bison_parser.y"
+#line 1281 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5367 "bison_parser.cpp"
+#line 5368 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1281 "bison_parser.y"
+#line 1282 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5373 "bison_parser.cpp"
+#line 5374 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1285 "bison_parser.y"
+#line 1286 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5379 "bison_parser.cpp"
+#line 5380 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1287 "bison_parser.y"
+#line 1288 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5385 "bison_parser.cpp"
+#line 5386 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1288 "bison_parser.y"
+#line 1289 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5391 "bison_parser.cpp"
+#line 5392 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1290 "bison_parser.y"
+#line 1291 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5397 "bison_parser.cpp"
+#line 5398 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1293 "bison_parser.y"
+#line 1294 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5403 "bison_parser.cpp"
+#line 5404 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1295 "bison_parser.y"
+#line 1296 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5409 "bison_parser.cpp"
+#line 5410 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1297 "bison_parser.y"
+#line 1298 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5420,17 +5421,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5424 "bison_parser.cpp"
+#line 5425 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1308 "bison_parser.y"
+#line 1309 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5430 "bison_parser.cpp"
+#line 5431 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1309 "bison_parser.y"
+#line 1310 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5442,11 +5443,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5446 "bison_parser.cpp"
+#line 5447 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1320 "bison_parser.y"
+#line 1321 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5478,61 +5479,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5482 "bison_parser.cpp"
+#line 5483 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1352 "bison_parser.y"
+#line 1353 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5492 "bison_parser.cpp"
+#line 5493 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1361 "bison_parser.y"
+#line 1362 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5503 "bison_parser.cpp"
+#line 5504 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1370 "bison_parser.y"
+#line 1371 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5514 "bison_parser.cpp"
+#line 5515 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1377 "bison_parser.y"
+#line 1378 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5523 "bison_parser.cpp"
+#line 5524 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1381 "bison_parser.y"
+#line 1382 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5532 "bison_parser.cpp"
+#line 5533 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1386 "bison_parser.y"
+#line 1387 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5540,215 +5541,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5544 "bison_parser.cpp"
+#line 5545 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1394 "bison_parser.y"
+#line 1395 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5554 "bison_parser.cpp"
+#line 5555 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1400 "bison_parser.y"
+#line 1401 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5563 "bison_parser.cpp"
+#line 5564 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1404 "bison_parser.y"
+#line 1405 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5572 "bison_parser.cpp"
+#line 5573 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1409 "bison_parser.y"
+#line 1410 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5578 "bison_parser.cpp"
+#line 5579 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1410 "bison_parser.y"
+#line 1411 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5584 "bison_parser.cpp"
+#line 5585 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1412 "bison_parser.y"
+#line 1413 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5590 "bison_parser.cpp"
+#line 5591 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1414 "bison_parser.y"
+#line 1415 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5596 "bison_parser.cpp"
+#line 5597 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1416 "bison_parser.y"
+#line 1417 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5602 "bison_parser.cpp"
+#line 5603 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1417 "bison_parser.y"
+#line 1418 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5608 "bison_parser.cpp"
+#line 5609 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1419 "bison_parser.y"
+#line 1420 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5614 "bison_parser.cpp"
+#line 5615 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1425 "bison_parser.y"
+#line 1426 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5620 "bison_parser.cpp"
+#line 5621 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1426 "bison_parser.y"
+#line 1427 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5626 "bison_parser.cpp"
+#line 5627 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1428 "bison_parser.y"
+#line 1429 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5635 "bison_parser.cpp"
+#line 5636 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1432 "bison_parser.y"
+#line 1433 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5644 "bison_parser.cpp"
+#line 5645 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1437 "bison_parser.y"
+#line 1438 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5655 "bison_parser.cpp"
+#line 5656 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1443 "bison_parser.y"
+#line 1444 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5666 "bison_parser.cpp"
+#line 5667 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1450 "bison_parser.y"
+#line 1451 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5672 "bison_parser.cpp"
+#line 5673 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1451 "bison_parser.y"
+#line 1452 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5678 "bison_parser.cpp"
+#line 5679 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1452 "bison_parser.y"
+#line 1453 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5684 "bison_parser.cpp"
+#line 5685 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1453 "bison_parser.y"
+#line 1454 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5690 "bison_parser.cpp"
+#line 5691 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1455 "bison_parser.y"
+#line 1456 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5696 "bison_parser.cpp"
+#line 5697 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1456 "bison_parser.y"
+#line 1457 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5702 "bison_parser.cpp"
+#line 5703 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1457 "bison_parser.y"
+#line 1458 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5708 "bison_parser.cpp"
+#line 5709 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1463 "bison_parser.y"
+#line 1464 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5714 "bison_parser.cpp"
+#line 5715 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1465 "bison_parser.y"
+#line 1466 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5720 "bison_parser.cpp"
+#line 5721 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1467 "bison_parser.y"
+#line 1468 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5729 "bison_parser.cpp"
+#line 5730 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1471 "bison_parser.y"
+#line 1472 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5738 "bison_parser.cpp"
+#line 5739 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1476 "bison_parser.y"
+#line 1477 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5748 "bison_parser.cpp"
+#line 5749 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1486 "bison_parser.y"
+#line 1487 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5756,11 +5757,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5760 "bison_parser.cpp"
+#line 5761 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1493 "bison_parser.y"
+#line 1494 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5769,11 +5770,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5773 "bison_parser.cpp"
+#line 5774 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1501 "bison_parser.y"
+#line 1502 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5782,89 +5783,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5786 "bison_parser.cpp"
+#line 5787 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1510 "bison_parser.y"
+#line 1511 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5792 "bison_parser.cpp"
+#line 5793 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1511 "bison_parser.y"
+#line 1512 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5798 "bison_parser.cpp"
+#line 5799 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1512 "bison_parser.y"
+#line 1513 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5804 "bison_parser.cpp"
+#line 5805 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1513 "bison_parser.y"
+#line 1514 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5810 "bison_parser.cpp"
+#line 5811 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1514 "bison_parser.y"
+#line 1515 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5816 "bison_parser.cpp"
+#line 5817 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1515 "bison_parser.y"
+#line 1516 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5822 "bison_parser.cpp"
+#line 5823 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1516 "bison_parser.y"
+#line 1517 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5828 "bison_parser.cpp"
+#line 5829 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1517 "bison_parser.y"
+#line 1518 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5834 "bison_parser.cpp"
+#line 5835 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1518 "bison_parser.y"
+#line 1519 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5840 "bison_parser.cpp"
+#line 5841 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1519 "bison_parser.y"
+#line 1520 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5846 "bison_parser.cpp"
+#line 5847 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1530 "bison_parser.y"
+#line 1531 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5855 "bison_parser.cpp"
+#line 5856 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1534 "bison_parser.y"
+#line 1535 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5864 "bison_parser.cpp"
+#line 5865 "bison_parser.cpp"
     break;
 
 
-#line 5868 "bison_parser.cpp"
+#line 5869 "bison_parser.cpp"
 
       default: break;
     }
@@ -6093,7 +6094,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1540 "bison_parser.y"
+#line 1541 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 4994bcf..666d365 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -719,6 +719,7 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$ = new CreateStatement(kCreateIndex);
   $$->indexName = $4;
   $$->ifNotExists = $3;
+  $$->schema = $6.schema;
   $$->tableName = $6.name;
   $$->indexColumns = $8;
 }
-- 
2.43.0


From 8787ec033f63ef6bce9c070a2abc9cbbe2abdd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 14/25] fix: release the statement when CREATE TABLE FROM has
 an unknown file type

---
 src/parser/bison_parser.cpp | 1110 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |    2 +
 2 files changed, 558 insertions(+), 554 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index af940bb..27a99ce 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -879,37 +879,37 @@ static const yytype_int16 yyrline[] =
      446,   447,   449,   453,   458,   462,   472,   473,   474,   476,
      476,   482,   488,   490,   494,   506,   512,   529,   544,   546,
      547,   548,   550,   564,   568,   578,   582,   606,   614,   627,
-     634,   649,   669,   670,   675,   686,   699,   711,   718,   726,
-     735,   736,   738,   742,   747,   748,   750,   758,   759,   760,
-     761,   762,   763,   764,   768,   769,   770,   771,   772,   773,
-     774,   775,   776,   777,   778,   780,   781,   783,   784,   785,
-     787,   788,   790,   794,   798,   803,   811,   812,   813,   814,
-     816,   817,   818,   820,   828,   834,   840,   846,   852,   853,
-     860,   866,   868,   878,   885,   896,   903,   911,   912,   919,
-     926,   930,   935,   945,   949,   953,   965,   965,   967,   968,
-     977,   978,   980,   994,  1006,  1011,  1015,  1019,  1024,  1025,
-    1027,  1037,  1038,  1040,  1042,  1043,  1045,  1047,  1048,  1050,
-    1055,  1057,  1058,  1060,  1061,  1063,  1067,  1072,  1074,  1075,
-    1076,  1078,  1079,  1101,  1102,  1104,  1105,  1106,  1107,  1108,
-    1109,  1114,  1118,  1124,  1125,  1127,  1131,  1136,  1136,  1140,
-    1148,  1149,  1151,  1160,  1160,  1160,  1160,  1160,  1162,  1163,
-    1163,  1163,  1163,  1163,  1163,  1163,  1163,  1164,  1164,  1168,
-    1168,  1170,  1171,  1172,  1173,  1174,  1176,  1176,  1177,  1178,
-    1179,  1180,  1181,  1182,  1183,  1184,  1185,  1187,  1188,  1190,
-    1191,  1192,  1193,  1197,  1198,  1199,  1200,  1202,  1203,  1205,
-    1206,  1208,  1209,  1210,  1211,  1212,  1213,  1214,  1218,  1219,
-    1220,  1221,  1225,  1226,  1228,  1229,  1234,  1235,  1236,  1240,
-    1241,  1242,  1244,  1245,  1246,  1247,  1248,  1250,  1252,  1254,
-    1255,  1256,  1257,  1258,  1259,  1261,  1262,  1263,  1264,  1265,
-    1266,  1268,  1268,  1270,  1272,  1277,  1279,  1280,  1281,  1282,
-    1284,  1284,  1284,  1284,  1284,  1284,  1284,  1286,  1288,  1289,
-    1291,  1292,  1294,  1296,  1298,  1309,  1310,  1321,  1353,  1362,
-    1362,  1369,  1369,  1371,  1371,  1378,  1382,  1387,  1395,  1401,
-    1405,  1410,  1411,  1413,  1413,  1415,  1415,  1417,  1418,  1420,
-    1420,  1426,  1427,  1429,  1433,  1438,  1444,  1451,  1452,  1453,
-    1454,  1456,  1457,  1458,  1464,  1464,  1466,  1468,  1472,  1477,
-    1487,  1494,  1502,  1511,  1512,  1513,  1514,  1515,  1516,  1517,
-    1518,  1519,  1520,  1522,  1528,  1528,  1531,  1535
+     634,   649,   669,   670,   675,   686,   701,   713,   720,   728,
+     737,   738,   740,   744,   749,   750,   752,   760,   761,   762,
+     763,   764,   765,   766,   770,   771,   772,   773,   774,   775,
+     776,   777,   778,   779,   780,   782,   783,   785,   786,   787,
+     789,   790,   792,   796,   800,   805,   813,   814,   815,   816,
+     818,   819,   820,   822,   830,   836,   842,   848,   854,   855,
+     862,   868,   870,   880,   887,   898,   905,   913,   914,   921,
+     928,   932,   937,   947,   951,   955,   967,   967,   969,   970,
+     979,   980,   982,   996,  1008,  1013,  1017,  1021,  1026,  1027,
+    1029,  1039,  1040,  1042,  1044,  1045,  1047,  1049,  1050,  1052,
+    1057,  1059,  1060,  1062,  1063,  1065,  1069,  1074,  1076,  1077,
+    1078,  1080,  1081,  1103,  1104,  1106,  1107,  1108,  1109,  1110,
+    1111,  1116,  1120,  1126,  1127,  1129,  1133,  1138,  1138,  1142,
+    1150,  1151,  1153,  1162,  1162,  1162,  1162,  1162,  1164,  1165,
+    1165,  1165,  1165,  1165,  1165,  1165,  1165,  1166,  1166,  1170,
+    1170,  1172,  1173,  1174,  1175,  1176,  1178,  1178,  1179,  1180,
+    1181,  1182,  1183,  1184,  1185,  1186,  1187,  1189,  1190,  1192,
+    1193,  1194,  1195,  1199,  1200,  1201,  1202,  1204,  1205,  1207,
+    1208,  1210,  1211,  1212,  1213,  1214,  1215,  1216,  1220,  1221,
+    1222,  1223,  1227,  1228,  1230,  1231,  1236,  1237,  1238,  1242,
+    1243,  1244,  1246,  1247,  1248,  1249,  1250,  1252,  1254,  1256,
+    1257,  1258,  1259,  1260,  1261,  1263,  1264,  1265,  1266,  1267,
+    1268,  1270,  1270,  1272,  1274,  1279,  1281,  1282,  1283,  1284,
+    1286,  1286,  1286,  1286,  1286,  1286,  1286,  1288,  1290,  1291,
+    1293,  1294,  1296,  1298,  1300,  1311,  1312,  1323,  1355,  1364,
+    1364,  1371,  1371,  1373,  1373,  1380,  1384,  1389,  1397,  1403,
+    1407,  1412,  1413,  1415,  1415,  1417,  1417,  1419,  1420,  1422,
+    1422,  1428,  1429,  1431,  1435,  1440,  1446,  1453,  1454,  1455,
+    1456,  1458,  1459,  1460,  1466,  1466,  1468,  1470,  1474,  1479,
+    1489,  1496,  1504,  1513,  1514,  1515,  1516,  1517,  1518,  1519,
+    1520,  1521,  1522,  1524,  1530,  1530,  1533,  1537
 };
 #endif
 
@@ -3905,18 +3905,20 @@ yyreduce:
   (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
   if (strcasecmp((yyvsp[-2].sval), "tbl") != 0) {
+    delete (yyval.create_stmt);
     free((yyvsp[-2].sval));
+    free((yyvsp[0].sval));
     yyerror(&yyloc, result, scanner, "File type is unknown.");
     YYERROR;
   }
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3916 "bison_parser.cpp"
+#line 3918 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 699 "bison_parser.y"
+#line 701 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3929,11 +3931,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3933 "bison_parser.cpp"
+#line 3935 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 711 "bison_parser.y"
+#line 713 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -3941,11 +3943,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3945 "bison_parser.cpp"
+#line 3947 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 718 "bison_parser.y"
+#line 720 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -3954,11 +3956,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3958 "bison_parser.cpp"
+#line 3960 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 726 "bison_parser.y"
+#line 728 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3967,53 +3969,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3971 "bison_parser.cpp"
+#line 3973 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 735 "bison_parser.y"
+#line 737 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3977 "bison_parser.cpp"
+#line 3979 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 736 "bison_parser.y"
+#line 738 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3983 "bison_parser.cpp"
+#line 3985 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 738 "bison_parser.y"
+#line 740 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3992 "bison_parser.cpp"
+#line 3994 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 742 "bison_parser.y"
+#line 744 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 4001 "bison_parser.cpp"
+#line 4003 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 747 "bison_parser.y"
+#line 749 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 4007 "bison_parser.cpp"
+#line 4009 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 748 "bison_parser.y"
+#line 750 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 4013 "bison_parser.cpp"
+#line 4015 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 750 "bison_parser.y"
+#line 752 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -4021,192 +4023,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 4025 "bison_parser.cpp"
+#line 4027 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 758 "bison_parser.y"
+#line 760 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 4031 "bison_parser.cpp"
+#line 4033 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 759 "bison_parser.y"
+#line 761 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 4037 "bison_parser.cpp"
+#line 4039 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 760 "bison_parser.y"
+#line 762 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 4043 "bison_parser.cpp"
+#line 4045 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 761 "bison_parser.y"
+#line 763 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4049 "bison_parser.cpp"
+#line 4051 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 762 "bison_parser.y"
+#line 764 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 4055 "bison_parser.cpp"
+#line 4057 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 763 "bison_parser.y"
+#line 765 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4061 "bison_parser.cpp"
+#line 4063 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 764 "bison_parser.y"
+#line 766 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 4070 "bison_parser.cpp"
+#line 4072 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 768 "bison_parser.y"
+#line 770 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4076 "bison_parser.cpp"
+#line 4078 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 769 "bison_parser.y"
+#line 771 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4082 "bison_parser.cpp"
+#line 4084 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 770 "bison_parser.y"
+#line 772 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4088 "bison_parser.cpp"
+#line 4090 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 771 "bison_parser.y"
+#line 773 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4094 "bison_parser.cpp"
+#line 4096 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 772 "bison_parser.y"
+#line 774 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4100 "bison_parser.cpp"
+#line 4102 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 773 "bison_parser.y"
+#line 775 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4106 "bison_parser.cpp"
+#line 4108 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 774 "bison_parser.y"
+#line 776 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4112 "bison_parser.cpp"
+#line 4114 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 775 "bison_parser.y"
+#line 777 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4118 "bison_parser.cpp"
+#line 4120 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 776 "bison_parser.y"
+#line 778 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4124 "bison_parser.cpp"
+#line 4126 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 777 "bison_parser.y"
+#line 779 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4130 "bison_parser.cpp"
+#line 4132 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 778 "bison_parser.y"
+#line 780 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4136 "bison_parser.cpp"
+#line 4138 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 780 "bison_parser.y"
+#line 782 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4142 "bison_parser.cpp"
+#line 4144 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 781 "bison_parser.y"
+#line 783 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4148 "bison_parser.cpp"
+#line 4150 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 783 "bison_parser.y"
+#line 785 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4154 "bison_parser.cpp"
+#line 4156 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 784 "bison_parser.y"
+#line 786 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4160 "bison_parser.cpp"
+#line 4162 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 785 "bison_parser.y"
+#line 787 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4166 "bison_parser.cpp"
+#line 4168 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 787 "bison_parser.y"
+#line 789 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4172 "bison_parser.cpp"
+#line 4174 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 788 "bison_parser.y"
+#line 790 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4178 "bison_parser.cpp"
+#line 4180 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 790 "bison_parser.y"
+#line 792 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4187 "bison_parser.cpp"
+#line 4189 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 794 "bison_parser.y"
+#line 796 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4196 "bison_parser.cpp"
+#line 4198 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 798 "bison_parser.y"
+#line 800 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4206 "bison_parser.cpp"
+#line 4208 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 803 "bison_parser.y"
+#line 805 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4214,159 +4216,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4218 "bison_parser.cpp"
+#line 4220 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 811 "bison_parser.y"
+#line 813 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4224 "bison_parser.cpp"
+#line 4226 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 812 "bison_parser.y"
+#line 814 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4230 "bison_parser.cpp"
+#line 4232 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 813 "bison_parser.y"
+#line 815 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4236 "bison_parser.cpp"
+#line 4238 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 814 "bison_parser.y"
+#line 816 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4242 "bison_parser.cpp"
+#line 4244 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 816 "bison_parser.y"
+#line 818 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4248 "bison_parser.cpp"
+#line 4250 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 817 "bison_parser.y"
+#line 819 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4254 "bison_parser.cpp"
+#line 4256 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 818 "bison_parser.y"
+#line 820 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4260 "bison_parser.cpp"
+#line 4262 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 820 "bison_parser.y"
+#line 822 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4266 "bison_parser.cpp"
+#line 4268 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 828 "bison_parser.y"
+#line 830 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4277 "bison_parser.cpp"
+#line 4279 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 834 "bison_parser.y"
+#line 836 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4288 "bison_parser.cpp"
+#line 4290 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 840 "bison_parser.y"
+#line 842 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4298 "bison_parser.cpp"
+#line 4300 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 846 "bison_parser.y"
+#line 848 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4308 "bison_parser.cpp"
+#line 4310 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 852 "bison_parser.y"
+#line 854 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4314 "bison_parser.cpp"
+#line 4316 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 853 "bison_parser.y"
+#line 855 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4320 "bison_parser.cpp"
+#line 4322 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 860 "bison_parser.y"
+#line 862 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4330 "bison_parser.cpp"
+#line 4332 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 866 "bison_parser.y"
+#line 868 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4336 "bison_parser.cpp"
+#line 4338 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 868 "bison_parser.y"
+#line 870 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4345 "bison_parser.cpp"
+#line 4347 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 878 "bison_parser.y"
+#line 880 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4356 "bison_parser.cpp"
+#line 4358 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 885 "bison_parser.y"
+#line 887 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4366 "bison_parser.cpp"
+#line 4368 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 896 "bison_parser.y"
+#line 898 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4374,11 +4376,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4378 "bison_parser.cpp"
+#line 4380 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 903 "bison_parser.y"
+#line 905 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4386,80 +4388,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4390 "bison_parser.cpp"
+#line 4392 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 911 "bison_parser.y"
+#line 913 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4396 "bison_parser.cpp"
+#line 4398 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 912 "bison_parser.y"
+#line 914 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4402 "bison_parser.cpp"
+#line 4404 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 919 "bison_parser.y"
+#line 921 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4413 "bison_parser.cpp"
+#line 4415 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 926 "bison_parser.y"
+#line 928 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4422 "bison_parser.cpp"
+#line 4424 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 930 "bison_parser.y"
+#line 932 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4431 "bison_parser.cpp"
+#line 4433 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 935 "bison_parser.y"
+#line 937 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4441 "bison_parser.cpp"
+#line 4443 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 945 "bison_parser.y"
+#line 947 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4450 "bison_parser.cpp"
+#line 4452 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 949 "bison_parser.y"
+#line 951 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4459 "bison_parser.cpp"
+#line 4461 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 953 "bison_parser.y"
+#line 955 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4471,17 +4473,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4475 "bison_parser.cpp"
+#line 4477 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 967 "bison_parser.y"
+#line 969 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4481 "bison_parser.cpp"
+#line 4483 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 968 "bison_parser.y"
+#line 970 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4490,23 +4492,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4494 "bison_parser.cpp"
+#line 4496 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 977 "bison_parser.y"
+#line 979 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4500 "bison_parser.cpp"
+#line 4502 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 978 "bison_parser.y"
+#line 980 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4506 "bison_parser.cpp"
+#line 4508 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 980 "bison_parser.y"
+#line 982 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4521,11 +4523,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4525 "bison_parser.cpp"
+#line 4527 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 994 "bison_parser.y"
+#line 996 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4537,59 +4539,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4541 "bison_parser.cpp"
+#line 4543 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 1006 "bison_parser.y"
+#line 1008 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4550 "bison_parser.cpp"
+#line 4552 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 1011 "bison_parser.y"
+#line 1013 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4559 "bison_parser.cpp"
+#line 4561 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 1015 "bison_parser.y"
+#line 1017 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4568 "bison_parser.cpp"
+#line 4570 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 1019 "bison_parser.y"
+#line 1021 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4577 "bison_parser.cpp"
+#line 4579 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 1024 "bison_parser.y"
+#line 1026 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4583 "bison_parser.cpp"
+#line 4585 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 1025 "bison_parser.y"
+#line 1027 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4589 "bison_parser.cpp"
+#line 4591 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 1027 "bison_parser.y"
+#line 1029 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4599,141 +4601,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4603 "bison_parser.cpp"
+#line 4605 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1037 "bison_parser.y"
+#line 1039 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4609 "bison_parser.cpp"
+#line 4611 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1038 "bison_parser.y"
+#line 1040 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4615 "bison_parser.cpp"
+#line 4617 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1042 "bison_parser.y"
+#line 1044 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4621 "bison_parser.cpp"
+#line 4623 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1043 "bison_parser.y"
+#line 1045 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4627 "bison_parser.cpp"
+#line 4629 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1045 "bison_parser.y"
+#line 1047 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4633 "bison_parser.cpp"
+#line 4635 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1047 "bison_parser.y"
+#line 1049 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4639 "bison_parser.cpp"
+#line 4641 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1048 "bison_parser.y"
+#line 1050 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4645 "bison_parser.cpp"
+#line 4647 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1050 "bison_parser.y"
+#line 1052 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4655 "bison_parser.cpp"
+#line 4657 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1055 "bison_parser.y"
+#line 1057 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4661 "bison_parser.cpp"
+#line 4663 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1057 "bison_parser.y"
+#line 1059 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4667 "bison_parser.cpp"
+#line 4669 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1058 "bison_parser.y"
+#line 1060 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4673 "bison_parser.cpp"
+#line 4675 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1060 "bison_parser.y"
+#line 1062 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4679 "bison_parser.cpp"
+#line 4681 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1061 "bison_parser.y"
+#line 1063 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4685 "bison_parser.cpp"
+#line 4687 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1063 "bison_parser.y"
+#line 1065 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4694 "bison_parser.cpp"
+#line 4696 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1067 "bison_parser.y"
+#line 1069 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4703 "bison_parser.cpp"
+#line 4705 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1072 "bison_parser.y"
+#line 1074 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4709 "bison_parser.cpp"
+#line 4711 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1074 "bison_parser.y"
+#line 1076 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4715 "bison_parser.cpp"
+#line 4717 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1075 "bison_parser.y"
+#line 1077 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4721 "bison_parser.cpp"
+#line 4723 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1076 "bison_parser.y"
+#line 1078 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4727 "bison_parser.cpp"
+#line 4729 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1078 "bison_parser.y"
+#line 1080 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4733 "bison_parser.cpp"
+#line 4735 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1079 "bison_parser.y"
+#line 1081 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4753,115 +4755,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4757 "bison_parser.cpp"
+#line 4759 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1101 "bison_parser.y"
+#line 1103 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4763 "bison_parser.cpp"
+#line 4765 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1102 "bison_parser.y"
+#line 1104 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4769 "bison_parser.cpp"
+#line 4771 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1104 "bison_parser.y"
+#line 1106 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4775 "bison_parser.cpp"
+#line 4777 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1105 "bison_parser.y"
+#line 1107 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4781 "bison_parser.cpp"
+#line 4783 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1106 "bison_parser.y"
+#line 1108 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4787 "bison_parser.cpp"
+#line 4789 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1107 "bison_parser.y"
+#line 1109 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4793 "bison_parser.cpp"
+#line 4795 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1108 "bison_parser.y"
+#line 1110 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4799 "bison_parser.cpp"
+#line 4801 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1109 "bison_parser.y"
+#line 1111 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4805 "bison_parser.cpp"
+#line 4807 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1114 "bison_parser.y"
+#line 1116 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4814 "bison_parser.cpp"
+#line 4816 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1118 "bison_parser.y"
+#line 1120 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4823 "bison_parser.cpp"
+#line 4825 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1124 "bison_parser.y"
+#line 1126 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4829 "bison_parser.cpp"
+#line 4831 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1125 "bison_parser.y"
+#line 1127 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4835 "bison_parser.cpp"
+#line 4837 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1127 "bison_parser.y"
+#line 1129 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4844 "bison_parser.cpp"
+#line 4846 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1131 "bison_parser.y"
+#line 1133 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4853 "bison_parser.cpp"
+#line 4855 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1136 "bison_parser.y"
+#line 1138 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4861 "bison_parser.cpp"
+#line 4863 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1140 "bison_parser.y"
+#line 1142 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4870,23 +4872,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4874 "bison_parser.cpp"
+#line 4876 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1148 "bison_parser.y"
+#line 1150 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4880 "bison_parser.cpp"
+#line 4882 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1149 "bison_parser.y"
+#line 1151 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4886 "bison_parser.cpp"
+#line 4888 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1151 "bison_parser.y"
+#line 1153 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4895,522 +4897,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4899 "bison_parser.cpp"
+#line 4901 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1162 "bison_parser.y"
+#line 1164 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4905 "bison_parser.cpp"
+#line 4907 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1164 "bison_parser.y"
+#line 1166 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4913 "bison_parser.cpp"
+#line 4915 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1170 "bison_parser.y"
+#line 1172 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4919 "bison_parser.cpp"
+#line 4921 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1171 "bison_parser.y"
+#line 1173 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4925 "bison_parser.cpp"
+#line 4927 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1172 "bison_parser.y"
+#line 1174 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4931 "bison_parser.cpp"
+#line 4933 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1173 "bison_parser.y"
+#line 1175 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4937 "bison_parser.cpp"
+#line 4939 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1174 "bison_parser.y"
+#line 1176 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4943 "bison_parser.cpp"
+#line 4945 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1176 "bison_parser.y"
+#line 1178 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4949 "bison_parser.cpp"
+#line 4951 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1177 "bison_parser.y"
+#line 1179 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4955 "bison_parser.cpp"
+#line 4957 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1178 "bison_parser.y"
+#line 1180 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4961 "bison_parser.cpp"
+#line 4963 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1179 "bison_parser.y"
+#line 1181 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4967 "bison_parser.cpp"
+#line 4969 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1180 "bison_parser.y"
+#line 1182 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4973 "bison_parser.cpp"
+#line 4975 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1181 "bison_parser.y"
+#line 1183 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4979 "bison_parser.cpp"
+#line 4981 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1182 "bison_parser.y"
+#line 1184 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4985 "bison_parser.cpp"
+#line 4987 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1183 "bison_parser.y"
+#line 1185 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4991 "bison_parser.cpp"
+#line 4993 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1184 "bison_parser.y"
+#line 1186 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4997 "bison_parser.cpp"
+#line 4999 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1185 "bison_parser.y"
+#line 1187 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 5003 "bison_parser.cpp"
+#line 5005 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1187 "bison_parser.y"
+#line 1189 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 5009 "bison_parser.cpp"
+#line 5011 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1188 "bison_parser.y"
+#line 1190 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 5015 "bison_parser.cpp"
+#line 5017 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1190 "bison_parser.y"
+#line 1192 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 5021 "bison_parser.cpp"
+#line 5023 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1191 "bison_parser.y"
+#line 1193 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 5027 "bison_parser.cpp"
+#line 5029 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1192 "bison_parser.y"
+#line 1194 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 5033 "bison_parser.cpp"
+#line 5035 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1193 "bison_parser.y"
+#line 1195 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 5039 "bison_parser.cpp"
+#line 5041 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1197 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 5045 "bison_parser.cpp"
+#line 5047 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1198 "bison_parser.y"
+#line 1200 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5051 "bison_parser.cpp"
+#line 5053 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1199 "bison_parser.y"
+#line 1201 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 5057 "bison_parser.cpp"
+#line 5059 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1200 "bison_parser.y"
+#line 1202 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5063 "bison_parser.cpp"
+#line 5065 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1202 "bison_parser.y"
+#line 1204 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5069 "bison_parser.cpp"
+#line 5071 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1203 "bison_parser.y"
+#line 1205 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5075 "bison_parser.cpp"
+#line 5077 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1205 "bison_parser.y"
+#line 1207 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5081 "bison_parser.cpp"
+#line 5083 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1206 "bison_parser.y"
+#line 1208 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5087 "bison_parser.cpp"
+#line 5089 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1208 "bison_parser.y"
+#line 1210 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5093 "bison_parser.cpp"
+#line 5095 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1209 "bison_parser.y"
+#line 1211 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5099 "bison_parser.cpp"
+#line 5101 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1210 "bison_parser.y"
+#line 1212 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5105 "bison_parser.cpp"
+#line 5107 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1211 "bison_parser.y"
+#line 1213 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5111 "bison_parser.cpp"
+#line 5113 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1212 "bison_parser.y"
+#line 1214 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5117 "bison_parser.cpp"
+#line 5119 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1213 "bison_parser.y"
+#line 1215 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5123 "bison_parser.cpp"
+#line 5125 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1214 "bison_parser.y"
+#line 1216 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5129 "bison_parser.cpp"
+#line 5131 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1218 "bison_parser.y"
+#line 1220 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5135 "bison_parser.cpp"
+#line 5137 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1219 "bison_parser.y"
+#line 1221 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5141 "bison_parser.cpp"
+#line 5143 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1220 "bison_parser.y"
+#line 1222 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5147 "bison_parser.cpp"
+#line 5149 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1221 "bison_parser.y"
+#line 1223 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5153 "bison_parser.cpp"
+#line 5155 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1225 "bison_parser.y"
+#line 1227 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5159 "bison_parser.cpp"
+#line 5161 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1226 "bison_parser.y"
+#line 1228 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5165 "bison_parser.cpp"
+#line 5167 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1228 "bison_parser.y"
+#line 1230 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5171 "bison_parser.cpp"
+#line 5173 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1229 "bison_parser.y"
+#line 1231 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5177 "bison_parser.cpp"
+#line 5179 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1234 "bison_parser.y"
+#line 1236 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5183 "bison_parser.cpp"
+#line 5185 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1235 "bison_parser.y"
+#line 1237 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5189 "bison_parser.cpp"
+#line 5191 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1236 "bison_parser.y"
+#line 1238 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5197 "bison_parser.cpp"
+#line 5199 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1240 "bison_parser.y"
+#line 1242 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5203 "bison_parser.cpp"
+#line 5205 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1241 "bison_parser.y"
+#line 1243 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5209 "bison_parser.cpp"
+#line 5211 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1242 "bison_parser.y"
+#line 1244 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5215 "bison_parser.cpp"
+#line 5217 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1244 "bison_parser.y"
+#line 1246 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5221 "bison_parser.cpp"
+#line 5223 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1245 "bison_parser.y"
+#line 1247 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5227 "bison_parser.cpp"
+#line 5229 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1246 "bison_parser.y"
+#line 1248 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5233 "bison_parser.cpp"
+#line 5235 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1247 "bison_parser.y"
+#line 1249 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5239 "bison_parser.cpp"
+#line 5241 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1248 "bison_parser.y"
+#line 1250 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5245 "bison_parser.cpp"
+#line 5247 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1250 "bison_parser.y"
+#line 1252 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5251 "bison_parser.cpp"
+#line 5253 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1252 "bison_parser.y"
+#line 1254 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5257 "bison_parser.cpp"
+#line 5259 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1254 "bison_parser.y"
+#line 1256 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5263 "bison_parser.cpp"
+#line 5265 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1255 "bison_parser.y"
+#line 1257 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5269 "bison_parser.cpp"
+#line 5271 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1256 "bison_parser.y"
+#line 1258 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5275 "bison_parser.cpp"
+#line 5277 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1257 "bison_parser.y"
+#line 1259 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5281 "bison_parser.cpp"
+#line 5283 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1258 "bison_parser.y"
+#line 1260 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5287 "bison_parser.cpp"
+#line 5289 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1259 "bison_parser.y"
+#line 1261 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5293 "bison_parser.cpp"
+#line 5295 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1261 "bison_parser.y"
+#line 1263 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5299 "bison_parser.cpp"
+#line 5301 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1262 "bison_parser.y"
+#line 1264 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5305 "bison_parser.cpp"
+#line 5307 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1263 "bison_parser.y"
+#line 1265 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5311 "bison_parser.cpp"
+#line 5313 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1264 "bison_parser.y"
+#line 1266 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5317 "bison_parser.cpp"
+#line 5319 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1265 "bison_parser.y"
+#line 1267 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5323 "bison_parser.cpp"
+#line 5325 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1266 "bison_parser.y"
+#line 1268 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5329 "bison_parser.cpp"
+#line 5331 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1270 "bison_parser.y"
+#line 1272 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5335 "bison_parser.cpp"
+#line 5337 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1272 "bison_parser.y"
+#line 1274 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 5344 "bison_parser.cpp"
+#line 5346 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1277 "bison_parser.y"
+#line 1279 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5350 "bison_parser.cpp"
+#line 5352 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1279 "bison_parser.y"
+#line 1281 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5356 "bison_parser.cpp"
+#line 5358 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1280 "bison_parser.y"
+#line 1282 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5362 "bison_parser.cpp"
+#line 5364 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1281 "bison_parser.y"
+#line 1283 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5368 "bison_parser.cpp"
+#line 5370 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1282 "bison_parser.y"
+#line 1284 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5374 "bison_parser.cpp"
+#line 5376 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1286 "bison_parser.y"
+#line 1288 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5380 "bison_parser.cpp"
+#line 5382 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1288 "bison_parser.y"
+#line 1290 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5386 "bison_parser.cpp"
+#line 5388 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1289 "bison_parser.y"
+#line 1291 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5392 "bison_parser.cpp"
+#line 5394 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1291 "bison_parser.y"
+#line 1293 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5398 "bison_parser.cpp"
+#line 5400 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1294 "bison_parser.y"
+#line 1296 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5404 "bison_parser.cpp"
+#line 5406 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1296 "bison_parser.y"
+#line 1298 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5410 "bison_parser.cpp"
+#line 5412 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1298 "bison_parser.y"
+#line 1300 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5421,17 +5423,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5425 "bison_parser.cpp"
+#line 5427 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1309 "bison_parser.y"
+#line 1311 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5431 "bison_parser.cpp"
+#line 5433 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1310 "bison_parser.y"
+#line 1312 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5443,11 +5445,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5447 "bison_parser.cpp"
+#line 5449 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1321 "bison_parser.y"
+#line 1323 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5479,61 +5481,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5483 "bison_parser.cpp"
+#line 5485 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1353 "bison_parser.y"
+#line 1355 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5493 "bison_parser.cpp"
+#line 5495 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1362 "bison_parser.y"
+#line 1364 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5504 "bison_parser.cpp"
+#line 5506 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1371 "bison_parser.y"
+#line 1373 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5515 "bison_parser.cpp"
+#line 5517 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1378 "bison_parser.y"
+#line 1380 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5524 "bison_parser.cpp"
+#line 5526 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1382 "bison_parser.y"
+#line 1384 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5533 "bison_parser.cpp"
+#line 5535 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1387 "bison_parser.y"
+#line 1389 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5541,215 +5543,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5545 "bison_parser.cpp"
+#line 5547 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1395 "bison_parser.y"
+#line 1397 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5555 "bison_parser.cpp"
+#line 5557 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1401 "bison_parser.y"
+#line 1403 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5564 "bison_parser.cpp"
+#line 5566 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1405 "bison_parser.y"
+#line 1407 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5573 "bison_parser.cpp"
+#line 5575 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1410 "bison_parser.y"
+#line 1412 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5579 "bison_parser.cpp"
+#line 5581 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1411 "bison_parser.y"
+#line 1413 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5585 "bison_parser.cpp"
+#line 5587 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1413 "bison_parser.y"
+#line 1415 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5591 "bison_parser.cpp"
+#line 5593 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1415 "bison_parser.y"
+#line 1417 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5597 "bison_parser.cpp"
+#line 5599 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1417 "bison_parser.y"
+#line 1419 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5603 "bison_parser.cpp"
+#line 5605 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1418 "bison_parser.y"
+#line 1420 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5609 "bison_parser.cpp"
+#line 5611 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1420 "bison_parser.y"
+#line 1422 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5615 "bison_parser.cpp"
+#line 5617 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1426 "bison_parser.y"
+#line 1428 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5621 "bison_parser.cpp"
+#line 5623 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1427 "bison_parser.y"
+#line 1429 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5627 "bison_parser.cpp"
+#line 5629 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1429 "bison_parser.y"
+#line 1431 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5636 "bison_parser.cpp"
+#line 5638 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1433 "bison_parser.y"
+#line 1435 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5645 "bison_parser.cpp"
+#line 5647 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1438 "bison_parser.y"
+#line 1440 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5656 "bison_parser.cpp"
+#line 5658 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1444 "bison_parser.y"
+#line 1446 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5667 "bison_parser.cpp"
+#line 5669 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1451 "bison_parser.y"
+#line 1453 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5673 "bison_parser.cpp"
+#line 5675 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1452 "bison_parser.y"
+#line 1454 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5679 "bison_parser.cpp"
+#line 5681 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1453 "bison_parser.y"
+#line 1455 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5685 "bison_parser.cpp"
+#line 5687 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1454 "bison_parser.y"
+#line 1456 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5691 "bison_parser.cpp"
+#line 5693 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1456 "bison_parser.y"
+#line 1458 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5697 "bison_parser.cpp"
+#line 5699 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1457 "bison_parser.y"
+#line 1459 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5703 "bison_parser.cpp"
+#line 5705 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1458 "bison_parser.y"
+#line 1460 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5709 "bison_parser.cpp"
+#line 5711 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1464 "bison_parser.y"
+#line 1466 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5715 "bison_parser.cpp"
+#line 5717 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1466 "bison_parser.y"
+#line 1468 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5721 "bison_parser.cpp"
+#line 5723 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1468 "bison_parser.y"
+#line 1470 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5730 "bison_parser.cpp"
+#line 5732 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1472 "bison_parser.y"
+#line 1474 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5739 "bison_parser.cpp"
+#line 5741 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1477 "bison_parser.y"
+#line 1479 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5749 "bison_parser.cpp"
+#line 5751 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1487 "bison_parser.y"
+#line 1489 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5757,11 +5759,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5761 "bison_parser.cpp"
+#line 5763 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1494 "bison_parser.y"
+#line 1496 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5770,11 +5772,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5774 "bison_parser.cpp"
+#line 5776 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1502 "bison_parser.y"
+#line 1504 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5783,89 +5785,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5787 "bison_parser.cpp"
+#line 5789 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1511 "bison_parser.y"
+#line 1513 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5793 "bison_parser.cpp"
+#line 5795 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1512 "bison_parser.y"
+#line 1514 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5799 "bison_parser.cpp"
+#line 5801 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1513 "bison_parser.y"
+#line 1515 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5805 "bison_parser.cpp"
+#line 5807 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1514 "bison_parser.y"
+#line 1516 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5811 "bison_parser.cpp"
+#line 5813 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1515 "bison_parser.y"
+#line 1517 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5817 "bison_parser.cpp"
+#line 5819 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1516 "bison_parser.y"
+#line 1518 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5823 "bison_parser.cpp"
+#line 5825 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1517 "bison_parser.y"
+#line 1519 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5829 "bison_parser.cpp"
+#line 5831 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1518 "bison_parser.y"
+#line 1520 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5835 "bison_parser.cpp"
+#line 5837 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1519 "bison_parser.y"
+#line 1521 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5841 "bison_parser.cpp"
+#line 5843 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1520 "bison_parser.y"
+#line 1522 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5847 "bison_parser.cpp"
+#line 5849 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1531 "bison_parser.y"
+#line 1533 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5856 "bison_parser.cpp"
+#line 5858 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1535 "bison_parser.y"
+#line 1537 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5865 "bison_parser.cpp"
+#line 5867 "bison_parser.cpp"
     break;
 
 
-#line 5869 "bison_parser.cpp"
+#line 5871 "bison_parser.cpp"
 
       default: break;
     }
@@ -6094,7 +6096,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1541 "bison_parser.y"
+#line 1543 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 666d365..13aaf4e 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -689,7 +689,9 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$->schema = $4.schema;
   $$->tableName = $4.name;
   if (strcasecmp($6, "tbl") != 0) {
+    delete $$;
     free($6);
+    free($8);
     yyerror(&yyloc, result, scanner, "File type is unknown.");
     YYERROR;
   }
-- 
2.43.0


From 00f227d30ffa0f9dba55385bdf8ab08d726f2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 15/25] fix: do not return statements when something follows
 the last one

SELECT 1 ) was reported as invalid, but with a statement in the result.
---
 src/parser/bison_parser.cpp | 3570 +++++++++++++++++++++++------------
 src/parser/bison_parser.h   |    2 +-
 src/parser/bison_parser.y   |    4 +
 3 files changed, 2337 insertions(+), 1239 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 27a99ce..26e31ac 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -798,7 +798,7 @@ union yyalloc
 /* YYFINAL -- State number of the termination state.  */
 #define YYFINAL  69
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   856
+#define YYLAST   6326
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  199
@@ -874,42 +874,42 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   387,   387,   406,   412,   419,   423,   427,   428,   429,
-     431,   432,   433,   434,   435,   436,   437,   438,   439,   440,
-     446,   447,   449,   453,   458,   462,   472,   473,   474,   476,
-     476,   482,   488,   490,   494,   506,   512,   529,   544,   546,
-     547,   548,   550,   564,   568,   578,   582,   606,   614,   627,
-     634,   649,   669,   670,   675,   686,   701,   713,   720,   728,
-     737,   738,   740,   744,   749,   750,   752,   760,   761,   762,
-     763,   764,   765,   766,   770,   771,   772,   773,   774,   775,
-     776,   777,   778,   779,   780,   782,   783,   785,   786,   787,
-     789,   790,   792,   796,   800,   805,   813,   814,   815,   816,
-     818,   819,   820,   822,   830,   836,   842,   848,   854,   855,
-     862,   868,   870,   880,   887,   898,   905,   913,   914,   921,
-     928,   932,   937,   947,   951,   955,   967,   967,   969,   970,
-     979,   980,   982,   996,  1008,  1013,  1017,  1021,  1026,  1027,
-    1029,  1039,  1040,  1042,  1044,  1045,  1047,  1049,  1050,  1052,
-    1057,  1059,  1060,  1062,  1063,  1065,  1069,  1074,  1076,  1077,
-    1078,  1080,  1081,  1103,  1104,  1106,  1107,  1108,  1109,  1110,
-    1111,  1116,  1120,  1126,  1127,  1129,  1133,  1138,  1138,  1142,
-    1150,  1151,  1153,  1162,  1162,  1162,  1162,  1162,  1164,  1165,
-    1165,  1165,  1165,  1165,  1165,  1165,  1165,  1166,  1166,  1170,
-    1170,  1172,  1173,  1174,  1175,  1176,  1178,  1178,  1179,  1180,
-    1181,  1182,  1183,  1184,  1185,  1186,  1187,  1189,  1190,  1192,
-    1193,  1194,  1195,  1199,  1200,  1201,  1202,  1204,  1205,  1207,
-    1208,  1210,  1211,  1212,  1213,  1214,  1215,  1216,  1220,  1221,
-    1222,  1223,  1227,  1228,  1230,  1231,  1236,  1237,  1238,  1242,
-    1243,  1244,  1246,  1247,  1248,  1249,  1250,  1252,  1254,  1256,
-    1257,  1258,  1259,  1260,  1261,  1263,  1264,  1265,  1266,  1267,
-    1268,  1270,  1270,  1272,  1274,  1279,  1281,  1282,  1283,  1284,
-    1286,  1286,  1286,  1286,  1286,  1286,  1286,  1288,  1290,  1291,
-    1293,  1294,  1296,  1298,  1300,  1311,  1312,  1323,  1355,  1364,
-    1364,  1371,  1371,  1373,  1373,  1380,  1384,  1389,  1397,  1403,
-    1407,  1412,  1413,  1415,  1415,  1417,  1417,  1419,  1420,  1422,
-    1422,  1428,  1429,  1431,  1435,  1440,  1446,  1453,  1454,  1455,
-    1456,  1458,  1459,  1460,  1466,  1466,  1468,  1470,  1474,  1479,
-    1489,  1496,  1504,  1513,  1514,  1515,  1516,  1517,  1518,  1519,
-    1520,  1521,  1522,  1524,  1530,  1530,  1533,  1537
+       0,   391,   391,   410,   416,   423,   427,   431,   432,   433,
+     435,   436,   437,   438,   439,   440,   441,   442,   443,   444,
+     450,   451,   453,   457,   462,   466,   476,   477,   478,   480,
+     480,   486,   492,   494,   498,   510,   516,   533,   548,   550,
+     551,   552,   554,   568,   572,   582,   586,   610,   618,   631,
+     638,   653,   673,   674,   679,   690,   705,   717,   724,   732,
+     741,   742,   744,   748,   753,   754,   756,   764,   765,   766,
+     767,   768,   769,   770,   774,   775,   776,   777,   778,   779,
+     780,   781,   782,   783,   784,   786,   787,   789,   790,   791,
+     793,   794,   796,   800,   804,   809,   817,   818,   819,   820,
+     822,   823,   824,   826,   834,   840,   846,   852,   858,   859,
+     866,   872,   874,   884,   891,   902,   909,   917,   918,   925,
+     932,   936,   941,   951,   955,   959,   971,   971,   973,   974,
+     983,   984,   986,  1000,  1012,  1017,  1021,  1025,  1030,  1031,
+    1033,  1043,  1044,  1046,  1048,  1049,  1051,  1053,  1054,  1056,
+    1061,  1063,  1064,  1066,  1067,  1069,  1073,  1078,  1080,  1081,
+    1082,  1084,  1085,  1107,  1108,  1110,  1111,  1112,  1113,  1114,
+    1115,  1120,  1124,  1130,  1131,  1133,  1137,  1142,  1142,  1146,
+    1154,  1155,  1157,  1166,  1166,  1166,  1166,  1166,  1168,  1169,
+    1169,  1169,  1169,  1169,  1169,  1169,  1169,  1170,  1170,  1174,
+    1174,  1176,  1177,  1178,  1179,  1180,  1182,  1182,  1183,  1184,
+    1185,  1186,  1187,  1188,  1189,  1190,  1191,  1193,  1194,  1196,
+    1197,  1198,  1199,  1203,  1204,  1205,  1206,  1208,  1209,  1211,
+    1212,  1214,  1215,  1216,  1217,  1218,  1219,  1220,  1224,  1225,
+    1226,  1227,  1231,  1232,  1234,  1235,  1240,  1241,  1242,  1246,
+    1247,  1248,  1250,  1251,  1252,  1253,  1254,  1256,  1258,  1260,
+    1261,  1262,  1263,  1264,  1265,  1267,  1268,  1269,  1270,  1271,
+    1272,  1274,  1274,  1276,  1278,  1283,  1285,  1286,  1287,  1288,
+    1290,  1290,  1290,  1290,  1290,  1290,  1290,  1292,  1294,  1295,
+    1297,  1298,  1300,  1302,  1304,  1315,  1316,  1327,  1359,  1368,
+    1368,  1375,  1375,  1377,  1377,  1384,  1388,  1393,  1401,  1407,
+    1411,  1416,  1417,  1419,  1419,  1421,  1421,  1423,  1424,  1426,
+    1426,  1432,  1433,  1435,  1439,  1444,  1450,  1457,  1458,  1459,
+    1460,  1462,  1463,  1464,  1470,  1470,  1472,  1474,  1478,  1483,
+    1493,  1500,  1508,  1517,  1518,  1519,  1520,  1521,  1522,  1523,
+    1524,  1525,  1526,  1528,  1534,  1534,  1537,  1541
 };
 #endif
 
@@ -999,86 +999,86 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-529)
+#define YYPACT_NINF (-559)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF (-355)
+#define YYTABLE_NINF (-356)
 
 #define yytable_value_is_error(Yyn) \
-  ((Yyn) == YYTABLE_NINF)
+  0
 
 /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     595,    27,    65,    71,    99,    65,   113,    83,   137,   140,
-      65,   190,    21,   195,    37,   292,   120,   120,   120,   287,
-     103,  -529,   221,  -529,   221,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,   -26,  -529,   342,
-     166,  -529,   183,   313,  -529,   251,   251,   251,    65,   415,
-      65,   298,  -529,   297,   -26,   293,   -37,   297,   297,   297,
-      65,  -529,   309,   267,  -529,  -529,  -529,  -529,  -529,  -529,
-     578,  -529,   369,  -529,  -529,   350,   224,  -529,    35,  -529,
-     479,   353,   486,   374,   494,    65,    65,   418,  -529,   413,
-     314,   505,   464,    65,   315,   317,   508,   508,   508,   519,
-      65,    65,  -529,   332,   292,  -529,   333,   521,   518,  -529,
-    -529,  -529,   -26,   420,   410,   -26,    15,  -529,  -529,  -529,
-     707,   344,   535,  -529,   536,  -529,  -529,    45,  -529,   349,
-     347,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,   500,  -529,   416,   -15,   314,   363,
-    -529,   508,   547,   198,   380,   -38,  -529,  -529,   466,  -529,
-    -529,  -529,   -75,   -75,   -75,  -529,  -529,  -529,  -529,  -529,
-     552,  -529,  -529,  -529,   363,   483,  -529,  -529,   224,  -529,
-    -529,   363,   483,   363,   151,   443,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,   200,  -529,   248,  -529,  -529,  -529,   353,  -529,    65,
-     561,   454,    19,   441,   129,   375,   381,   382,   244,   367,
-     396,    59,  -529,   335,    69,   395,  -529,  -529,  -529,  -529,
-    -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,  -529,
-    -529,  -529,   490,  -529,    38,   397,  -529,   363,   505,  -529,
-     550,  -529,  -529,   398,   193,  -529,   418,  -529,   402,   180,
-    -529,   502,   400,  -529,    44,    15,   -26,   401,  -529,   -31,
-      15,    69,   544,    68,   106,  -529,   443,  -529,   476,  -529,
-    -529,   411,   510,  -529,   668,   414,   434,   436,   205,  -529,
-    -529,  -529,   454,     9,    36,   551,   248,   363,   363,   268,
-     -43,   419,    59,   609,   363,   217,   417,   -23,   363,   363,
-      59,  -529,    59,    24,   421,   -27,    59,    59,    59,    59,
-      59,    59,    59,    59,    59,    59,    59,    59,    59,    59,
-      59,   521,    65,  -529,   610,   353,    69,  -529,   297,   193,
-     612,   616,   415,   617,   222,  -529,  -529,   353,  -529,   552,
-      22,   418,  -529,   363,  -529,   620,  -529,  -529,  -529,  -529,
-     363,  -529,  -529,   621,   443,   363,   363,  -529,   455,  -529,
-     465,   -70,  -529,   668,   547,   508,  -529,  -529,   432,  -529,
-     435,  -529,  -529,   440,  -529,  -529,   444,  -529,  -529,  -529,
-    -529,   445,  -529,  -529,   139,   547,   448,   449,  -529,    19,
-    -529,   557,   363,   451,  -529,   452,   555,   -13,   201,   167,
-     363,   363,  -529,   551,   528,   119,  -529,  -529,  -529,   529,
-     538,   638,    59,   457,   335,  -529,   548,   460,   638,   638,
-     638,   638,   653,   653,   653,   653,   217,   217,    92,    92,
-      92,   -96,   461,  -529,  -529,   228,   652,   234,  -529,  -529,
-    -529,  -529,  -529,   227,   239,  -529,   454,  -529,    87,  -529,
-     459,  -529,    39,  -529,   589,  -529,  -529,  -529,   658,  -529,
-    -529,    69,    69,   600,  -529,   547,  -529,   504,  -529,   472,
-     241,  -529,   662,   664,  -529,   665,   666,   667,  -529,  -529,
-     572,  -529,   506,    65,  -529,   139,  -529,  -529,   246,   547,
-     547,  -529,   484,  -529,   253,    14,  -529,   363,   668,   363,
-     363,  -529,   182,   211,   487,  -529,    59,   638,   335,   489,
-     264,  -529,  -529,  -529,  -529,  -529,   676,   415,  -529,  -529,
-     493,   585,  -529,  -529,  -529,   611,   618,   626,   591,    22,
-     685,  -529,  -529,  -529,   568,  -529,  -529,  -529,   -77,  -529,
-    -529,  -529,   501,   265,   511,   512,   515,  -529,  -529,   314,
-    -529,  -529,  -529,   266,   271,   613,   557,   557,   363,   121,
-     523,    69,   203,  -529,   363,  -529,   609,   527,   278,  -529,
-    -529,  -529,  -529,    39,    22,  -529,  -529,  -529,    22,   247,
-     539,   363,  -529,  -529,  -529,   722,  -529,  -529,  -529,  -529,
-    -529,   558,   614,   483,  -529,  -529,   279,  -529,  -529,  -529,
-      69,  -529,  -529,  -529,  -529,   463,   547,   -22,   543,  -529,
-     363,   330,   557,   549,   363,   284,   363,  -529,  -529,   400,
-    -529,  -529,  -529,   553,    61,  -529,   547,    69,  -529,  -529,
-      69,  -529,    25,    55,   188,  -529,  -529,   286,  -529,  -529,
-     625,  -529,  -529,  -529,    55,  -529
+    6110,    37,    89,   116,   123,    89,   -14,     0,   162,    49,
+      89,   128,    40,    -3,    35,   266,    55,    55,    55,   290,
+      21,  -559,   155,  -559,   155,  -559,  -559,  -559,  -559,  -559,
+    -559,  -559,  -559,  -559,  -559,  -559,  -559,   -23,  -559,   292,
+    5171,  -559,    65,   228,  -559,   187,    44,    44,    89,   305,
+      89,   201,  -559,    60,   -23,   207,   -32,    60,    60,    60,
+      89,  -559,   209,   -16,  -559,  -559,  -559,  -559,  -559,  -559,
+    6087,  -559,   241,  -559,  -559,  5624,    78,  -559,  1169,  -559,
+     347,   902,   354,   247,    36,    89,    89,   384,  -559,   294,
+      10,   380,   349,    89,   212,   220,   416,   416,   416,   398,
+      89,    89,  -559,   231,   266,  -559,   237,   430,  5759,  -559,
+    -559,  -559,   -23,   -36,   356,   -23,   165,  -559,  -559,  -559,
+     371,   262,   491,  -559,   501,  -559,  -559,    54,  -559,   335,
+     -81,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,
+    -559,  -559,  -559,  -559,   485,  -559,   435,   -37,   -75,  5900,
+    -559,   416,   580,    57,   414,    69,  -559,  -559,   517,  -559,
+    -559,  -559,   206,   345,   206,  -559,  -559,  -559,  -559,  -559,
+     610,  -559,  -559,  -559,  5900,   331,  -559,  -559,  1554,  -559,
+    -559,  5900,   343,  5900,  5780,   111,  -559,  -559,  -559,  -559,
+    -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,
+    -559,  1195,  -559,   561,  -559,  -559,  -559,   968,  -559,    89,
+     611,    51,    25,   493,   751,   436,   441,   443,  5808,  5922,
+     456,  5971,  -559,  5829,  1295,  1334,  -559,  -559,  -559,  -559,
+    -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,
+    -559,  -559,   550,  -559,   118,   457,  -559,  5900,   380,  -559,
+     613,  -559,  -559,   464,   329,  -559,    27,  -559,   357,   158,
+    -559,  4844,   840,  -559,  5403,   198,   -23,   413,  -559,   185,
+     165,   473,   423,   197,   205,  -559,   385,  -559,   533,  -559,
+    -559,   483,   566,  -559,  6173,   488,   492,   499,   244,  -559,
+    -559,  -559,    51,  5645,    14,   629,   482,  5900,  5900,   479,
+     317,   502,  5971,  1524,  5900,  1714,   511,   171,  5900,  5900,
+    5971,  -559,  5971,   -21,   503,   -15,  5971,  5971,  5971,  5971,
+    5971,  5971,  5971,  5971,  5971,  5971,  5971,  5971,  5971,  5971,
+    5971,   430,    89,  -559,   708,   968,   193,  -559,    60,   329,
+     717,   723,   305,   725,   251,  -559,  -559,   968,  -559,   610,
+      42,   910,  -559,  5900,  -559,   731,  -559,  -559,  -559,  -559,
+    5900,  -559,  -559,   173,   111,  5900,  5900,  -559,   568,  -559,
+     583,   214,  -559,  6173,   580,   416,  -559,  -559,   571,  -559,
+     705,  -559,  -559,   576,  -559,  -559,   578,  -559,  -559,  -559,
+    -559,   988,  -559,  -559,  1001,   580,   579,   581,  -559,    25,
+    -559,   949,  5900,  1139,  -559,   582,   668,   280,   302,   339,
+    5900,  5900,  -559,   629,   672,    91,  -559,  -559,  4903,  5036,
+    6134,  4015,  5971,   585,  5829,  -559,   675,  1904,  4163,  4311,
+    4459,  4607,  3391,  3547,  3703,  3859,  2094,  2284,  2474,  2664,
+    2854,  3044,   588,  -559,  -559,   346,   781,   396,  -559,  -559,
+    -559,  -559,  -559,   397,   402,  -559,    51,  -559,  5492,  -559,
+     590,  -559,   160,  -559,  5101,  -559,  -559,  -559,   782,  -559,
+    -559,   522,   594,   727,  -559,   580,  -559,   631,  -559,   598,
+     406,  -559,   787,   788,  -559,   789,   791,   792,  -559,  -559,
+     696,  -559,   635,    89,  -559,  1092,  -559,  -559,   434,   580,
+     580,  -559,   608,  -559,   452,  5673,  -559,  5900,  6173,  5900,
+    5900,  -559,   453,   412,   614,  -559,  5971,  4755,  5829,   616,
+     469,  -559,  -559,  -559,  -559,  -559,   807,   305,  -559,  -559,
+     618,   714,  -559,  -559,  -559,   -29,   -17,     3,   715,    42,
+     812,  -559,  -559,  -559,   690,  -559,  -559,  -559,    53,  -559,
+    -559,  -559,   624,   471,   625,   627,   630,  -559,  -559,   994,
+    -559,  -559,  -559,   478,   497,   521,   949,   949,  5900,   210,
+     634,   596,   466,  -559,  5900,  -559,  3201,   637,   512,  -559,
+    -559,  -559,  -559,   160,    42,  -559,  -559,  -559,    42,  5543,
+    5316,  5900,  -559,  -559,  -559,   819,  -559,  -559,  -559,  -559,
+    -559,   663,   711,   410,  -559,  -559,   523,  -559,  -559,  -559,
+     649,  -559,  -559,  -559,  -559,   704,   580,   103,   644,  -559,
+    5900,   312,   949,   646,  5900,   525,  5900,  -559,  -559,   569,
+    -559,  -559,  -559,   648,    34,  -559,   580,  5277,  -559,  -559,
+    5008,  -559,   114,    24,   293,  -559,  -559,   562,  -559,  -559,
+     728,  -559,  -559,  -559,    24,  -559
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -1086,91 +1086,91 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int16 yydefact[] =
 {
-     335,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,    30,    30,    30,     0,
-     355,     3,    21,    19,    21,    18,     8,     9,     7,    11,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     3,     0,    19,     0,    18,     8,     9,     7,    11,
       16,    17,    13,    14,    12,    15,    10,     0,   334,     0,
-     309,   114,    33,     0,    54,    61,    61,    61,     0,     0,
-       0,     0,   308,   109,     0,     0,     0,   109,   109,   109,
-       0,    52,     0,   336,   337,    29,    26,    28,    27,     1,
-     335,     2,     0,     6,     5,   164,   123,   124,   154,   106,
-       0,   174,     0,     0,   312,     0,     0,   148,    37,     0,
-     118,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,    53,     0,     0,     4,     0,     0,   142,   136,
-     137,   135,     0,   139,     0,     0,   170,   310,   287,   290,
-     292,     0,     0,   293,     0,   288,   289,     0,   298,     0,
-     173,   175,   177,   179,   280,   281,   282,   291,   283,   284,
-     285,   286,    32,    31,     0,   311,     0,     0,   118,     0,
-     113,     0,     0,     0,     0,   148,   120,   108,     0,   131,
-     130,    38,    41,    41,    41,   107,   104,   105,   339,   338,
-       0,   292,   163,   141,     0,   154,   127,   126,   128,   138,
-     134,     0,   154,     0,     0,   322,   259,   260,   261,   262,
+       0,   114,     0,     0,    54,     0,     0,     0,     0,     0,
+       0,     0,   308,     0,     0,     0,     0,     0,     0,     0,
+       0,    52,     0,     0,   337,    29,    26,    28,    27,     1,
+       0,     2,     0,     6,     5,     0,     0,   124,     0,   106,
+       0,     0,     0,     0,     0,     0,     0,     0,    37,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,    53,     0,     0,     4,     0,     0,     0,   136,
+     137,   135,     0,     0,     0,     0,     0,   310,   287,   290,
+       0,     0,     0,   293,     0,   288,   289,     0,   298,     0,
+       0,   175,   177,   179,   280,   281,   282,   291,   283,   284,
+     285,   286,    32,    31,     0,   311,     0,     0,     0,     0,
+     113,     0,     0,     0,     0,     0,   120,   108,     0,   131,
+     130,    38,     0,     0,     0,   107,   104,   105,   339,   338,
+       0,   292,   163,   141,     0,     0,   127,   126,     0,   138,
+     134,     0,     0,     0,     0,     0,   259,   260,   261,   262,
      263,   264,   265,   266,   267,   268,   269,   270,   271,   272,
-     295,     0,   294,   297,   180,   181,    34,     0,    60,     0,
-       0,   335,     0,     0,   276,     0,     0,     0,     0,     0,
-       0,     0,   278,     0,   147,   183,   190,   191,   192,   185,
+     295,     0,   294,     0,   180,   181,    34,     0,    60,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   278,     0,     0,     0,   190,   191,   192,   185,
      187,   193,   186,   206,   194,   195,   196,   197,   189,   184,
      199,   200,     0,   356,     0,     0,   116,     0,     0,   119,
-       0,   110,   111,     0,     0,    51,   148,    50,    24,     0,
-      22,   145,   143,   171,   320,   170,     0,   153,   155,   160,
-     170,   166,   168,   165,     0,   132,   321,   323,     0,   296,
+       0,   110,   111,     0,     0,    51,     0,    50,     0,     0,
+      22,     0,     0,   171,     0,     0,     0,     0,   155,     0,
+       0,     0,     0,     0,     0,   132,     0,   323,     0,   296,
      176,     0,     0,    57,     0,     0,     0,     0,     0,    62,
-      64,    65,   335,   142,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   202,     0,   201,     0,     0,     0,     0,
+      64,    65,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,   203,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   117,     0,     0,   122,   121,   109,     0,
+       0,     0,     0,   117,     0,     0,     0,   121,     0,     0,
        0,     0,     0,     0,     0,    47,    36,     0,    20,     0,
-       0,   148,   144,     0,   318,     0,   319,   182,   125,   129,
-       0,   159,   158,   161,   322,     0,     0,   327,     0,   329,
-       0,   333,   324,     0,     0,     0,    83,    77,     0,    79,
-      89,    80,    67,     0,    74,    75,     0,    71,    72,    78,
-      81,    86,    76,    68,    91,     0,     0,     0,    56,     0,
-      59,   243,     0,   277,   279,     0,     0,     0,     0,     0,
-       0,     0,   225,     0,     0,     0,   198,   188,   217,   218,
-       0,   213,     0,     0,     0,   204,     0,   216,   215,   231,
-     232,   233,   234,   235,   236,   237,   208,   207,   210,   209,
-     211,   212,     0,    35,   357,     0,     0,     0,    48,    45,
-      43,    49,    40,     0,     0,    23,   335,   146,   299,   301,
-       0,   303,   316,   302,   150,   172,   317,   156,     0,   157,
-     133,   169,   167,     0,   330,     0,   332,     0,   325,     0,
+       0,     0,   144,     0,   318,     0,   319,   182,   125,   129,
+       0,   159,   158,     0,     0,     0,     0,   327,     0,   329,
+       0,     0,   324,     0,     0,     0,    83,    77,     0,    79,
+       0,    80,    67,     0,    74,    75,     0,    71,    72,    78,
+      81,     0,    76,    68,     0,     0,     0,     0,    56,     0,
+      59,     0,     0,     0,   279,     0,     0,     0,     0,     0,
+       0,     0,   225,     0,     0,     0,   198,   188,     0,     0,
+       0,     0,     0,     0,     0,   204,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,    35,   357,     0,     0,     0,    48,    45,
+      43,    49,    40,     0,     0,    23,     0,   146,     0,   301,
+       0,   303,     0,   302,     0,   172,   317,   156,     0,   157,
+     133,     0,     0,     0,   330,     0,   332,     0,   325,     0,
        0,    55,     0,     0,    73,     0,     0,     0,    82,    98,
-       0,    97,     0,     0,    66,    90,    92,    94,     0,     0,
-       0,    63,     0,   238,     0,   142,   229,     0,     0,     0,
-       0,   223,     0,     0,     0,   273,     0,   214,     0,     0,
+       0,    97,     0,     0,    66,     0,    92,    94,     0,     0,
+       0,    63,     0,   238,     0,     0,   229,     0,     0,     0,
+       0,   223,     0,     0,     0,   273,     0,     0,     0,     0,
        0,   205,   274,   115,   112,    39,     0,     0,    46,    25,
-       0,     0,   351,   343,   349,   347,   350,   345,     0,     0,
-       0,   315,   307,   313,     0,   140,   162,   328,   333,   331,
-     178,    58,     0,     0,     0,     0,     0,    99,    96,   118,
-      93,    95,   101,     0,     0,   245,   243,   243,     0,     0,
-       0,   227,     0,   226,     0,   230,   275,     0,     0,   221,
-     219,    44,    42,   316,     0,   346,   348,   344,     0,   300,
-     317,     0,   326,    70,    88,     0,    84,    69,    85,   103,
-     100,     0,     0,   154,   239,   240,     0,   257,   258,   224,
-     228,   222,   220,   304,   340,   352,     0,   152,     0,   102,
-       0,   248,   243,     0,     0,     0,     0,   149,    87,   244,
-     249,   250,   251,     0,     0,   241,     0,   353,   341,   314,
-     151,   242,     0,     0,     0,   256,   246,     0,   255,   253,
+       0,     0,   351,   343,   349,     0,     0,     0,     0,     0,
+       0,   315,   307,   313,     0,   140,   162,   328,     0,   331,
+     178,    58,     0,     0,     0,     0,     0,    99,    96,     0,
+      93,    95,   101,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,   226,     0,   230,     0,     0,     0,   221,
+     219,    44,    42,     0,     0,   346,   348,   344,     0,     0,
+       0,     0,   326,    70,    88,     0,    84,    69,    85,   103,
+     100,     0,     0,     0,   239,   240,     0,   257,   258,   224,
+       0,   222,   220,   304,   340,     0,     0,     0,     0,   102,
+       0,     0,     0,     0,     0,     0,     0,   149,    87,     0,
+     249,   250,   251,     0,     0,   241,     0,     0,   341,   314,
+       0,   242,     0,     0,     0,   256,   246,     0,   255,   253,
        0,   254,   252,   342,     0,   247
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
-    -529,  -529,  -529,   673,  -529,   720,  -529,   399,  -529,   428,
-    -529,  -529,  -529,  -529,  -325,   -79,   290,   422,   296,  -529,
-    -529,  -529,   453,  -529,   354,  -529,  -338,  -529,  -529,  -529,
-    -529,   260,  -529,  -429,  -529,   -45,  -529,  -529,  -529,  -529,
-    -529,  -529,  -142,  -529,  -529,   514,  -202,   -87,  -529,   204,
-     -49,    -5,  -529,  -529,   -85,  -278,  -529,  -529,  -529,  -139,
-    -529,  -529,  -171,  -529,   403,  -529,  -529,  -529,   127,  -297,
-    -529,   -67,   559,   563,   405,  -147,  -188,  -529,  -529,  -529,
-    -529,  -529,  -529,   469,  -529,  -529,  -529,  -514,  -529,  -529,
-    -529,  -528,  -529,  -529,  -148,  -529,  -529,  -529,  -529,  -529,
-    -529,   -58,  -529,  -529,   632,  -106,  -529,  -529,   633,  -529,
-    -529,  -496,   181,  -529,  -529,  -529,    -2,  -529,  -529,   186,
-     509,  -529,   406,  -529,   496,  -529,   229,  -529,  -529,  -529,
-     675,  -529,  -529,  -529,  -529,  -354
+    -559,  -559,  -559,   777,  -559,   824,  -559,   504,  -559,   476,
+    -559,  -559,  -559,  -559,  -326,   -79,   360,   515,   403,  -559,
+    -559,  -559,   555,  -559,   458,  -559,  -298,  -559,  -559,  -559,
+    -559,   363,  -559,  -457,  -559,   -45,  -559,  -559,  -559,  -559,
+    -559,  -559,  -142,  -559,  -559,   607,  -202,   -83,  -559,   427,
+     -49,   -53,  -559,  -559,   -86,  -278,  -559,  -559,  -559,  -103,
+    -559,  -559,  -171,  -559,   505,  -559,  -559,  -559,    76,  -297,
+    -559,  -261,   652,   660,   509,  -147,  -188,  -559,  -559,  -559,
+    -559,  -559,  -559,   567,  -559,  -559,  -559,  -246,  -559,  -559,
+    -559,  -558,  -559,  -559,  -179,  -559,  -559,  -559,  -559,  -559,
+    -559,   -58,  -559,  -559,   744,  -106,  -559,  -559,   746,  -559,
+    -559,  -495,   297,  -559,  -559,  -559,    -2,  -559,  -559,   301,
+     622,  -559,   513,  -559,   615,  -559,   341,  -559,  -559,  -559,
+     786,  -559,  -559,  -559,  -559,  -354
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
@@ -1198,181 +1198,1275 @@ static const yytype_int16 yydefgoto[] =
 static const yytype_int16 yytable[] =
 {
       41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
-      56,   270,    99,   100,   101,   402,   249,   450,   163,   164,
-     480,   173,   284,   133,    40,    40,   173,   178,   182,   626,
-     178,   303,    75,   305,   269,   479,   271,   273,   253,   403,
-     316,   498,   354,   589,   109,   149,    87,   354,    90,   410,
-     119,   120,   604,   605,    39,   279,    60,    97,   102,   361,
-     475,   642,   214,   118,   119,   120,   561,   642,    40,   411,
-     183,   299,   242,   115,    42,   412,   307,   425,   643,   210,
-     110,   476,   477,   147,   148,   308,   362,   184,   476,   477,
-     400,   158,   615,   308,   426,   331,    98,    61,   166,   167,
-     336,   309,    43,   308,   246,   504,   216,   217,   635,   309,
-     211,   114,   508,   531,   303,   650,   111,   346,   254,   309,
-     334,   548,   420,   366,   421,   422,   655,   520,   427,   428,
+      56,   270,    99,   100,   101,   402,   450,   403,   163,   164,
+     480,  -355,  -139,   133,   279,   115,   178,  -148,   284,   178,
+     642,   303,   182,   305,   269,    75,   271,   273,   561,   145,
+     642,   498,  -336,    40,   589,    40,    87,   -61,    90,   585,
+    -118,   643,   249,  -333,    60,   -30,    45,   210,   102,   119,
+     120,   586,    97,  -109,    39,   -33,    46,    57,  -118,  -148,
+    -347,   299,   242,  -118,   445,   479,   307,    58,  -123,   179,
+     422,   587,  -350,   147,   148,   650,   454,   109,   211,   425,
+     400,   158,    40,   615,    48,    61,   655,    47,   166,   167,
+     336,    98,  -345,  -152,   246,   504,   426,   423,    59,  -335,
+     149,  -322,  -152,  -173,   303,    75,   207,   406,   152,    42,
+     245,   548,   420,   110,   421,   266,    43,   520,   427,   428,
      429,   430,   431,   432,   433,   434,   435,   436,   437,   438,
-     439,   440,   441,   133,   218,   563,   564,   122,   406,   133,
-     407,   408,   423,   532,   214,   118,   119,   120,   533,   248,
-     308,   418,   419,   123,   540,   534,   535,    54,   367,   355,
-     570,   417,   619,   266,   306,   353,   309,    48,   212,   359,
-     302,   178,   536,    45,   308,   308,  -352,   537,   285,   286,
-     287,   648,   649,    46,   220,   124,   340,   215,   216,   217,
-     309,   309,   582,   401,   118,   119,   120,   281,   567,   124,
-     125,   126,   464,   269,    54,   456,    55,   341,   471,   472,
-     644,   578,   404,   645,    47,   442,   644,   568,   316,   645,
-     340,    49,   333,   109,   517,   334,   218,   308,    50,   122,
-     368,    76,   342,   489,   221,   222,   405,   214,   118,   119,
-     120,   526,   223,   309,   530,   123,    75,   128,    94,   510,
-     490,   245,   625,   512,   513,    57,   272,   369,   445,   110,
-      53,   606,   219,   531,    65,    58,   527,   133,   370,   411,
-     454,   330,   647,   331,  -305,   511,   220,    69,   122,   133,
-     215,   216,   217,   446,   617,    62,   481,   343,   308,    70,
-     573,   124,   125,   126,   123,   111,    59,   168,   491,   492,
-     509,   515,   493,   532,   309,   607,   353,   308,   533,   308,
-     574,   609,   293,   629,   294,   534,   535,   308,   576,   218,
-     443,   343,   122,   309,    72,   309,   221,   222,   214,   118,
-     119,   120,   536,   309,   223,    79,  -352,   537,   123,   128,
-     124,   125,   126,   316,   651,   652,   298,   118,   119,   120,
-     569,    80,   571,   572,   514,   219,   214,   118,   119,   120,
-     214,   118,   119,   120,   348,   519,    81,   349,    83,   220,
-     298,   215,   216,   217,   308,   127,   186,   187,   188,   189,
-     190,   191,   358,    75,   124,   125,   126,   364,   128,   398,
-     309,   121,   399,   327,   328,   329,   330,    82,   331,   215,
-     216,   217,   310,   301,   216,   217,   452,   599,    88,   453,
-     218,    91,   523,   122,    92,   207,    96,   610,   525,   221,
-     222,   453,   621,   529,   103,   551,   207,   223,   334,   123,
-     562,   122,   128,   334,  -306,    67,    68,   566,   218,   311,
-     353,   122,   218,   256,   257,   122,   219,   123,   580,   594,
-     600,   353,   595,   334,   104,   601,   106,   123,   334,   577,
-     220,   123,   612,   622,   107,   353,   353,   637,   639,   640,
-     653,   334,   117,   334,   219,   124,   125,   126,   302,   531,
-     142,   559,   630,   631,   632,   144,   312,   145,   220,    85,
-      86,   149,   220,   124,   125,   126,   151,   152,   154,   159,
-     157,   160,   161,   124,   125,   126,   313,   124,   125,   126,
-     221,   222,   165,   314,   315,    54,   170,   171,   223,   532,
-     173,   316,   317,   128,   533,   179,   181,   201,   127,   202,
-     203,   534,   535,   206,   207,   623,   208,   209,   221,   222,
-     243,   128,   221,   222,   247,   258,   223,   250,   536,   114,
-     223,   128,   274,   537,   282,   128,   292,    15,   295,   318,
-     319,   320,   321,   322,   296,   297,   323,   324,  -354,   325,
-     326,   327,   328,   329,   330,     1,   331,   304,   332,   338,
-     335,   339,   311,     2,   624,   347,   350,   353,   360,   365,
-       3,   373,     1,   375,   374,     4,   396,   395,   397,    75,
-       2,   416,   413,   444,   424,     5,   448,     3,     6,     7,
-     449,   451,     4,   466,   468,   482,   474,   473,   483,   422,
-       8,     9,     5,   485,   502,     6,     7,   486,   487,   312,
-      10,   499,   500,    11,   505,   308,   506,     8,     9,   507,
-     518,   331,   521,   522,   516,   524,   539,    10,   544,   414,
-      11,   546,   547,   311,   549,    12,   550,   315,   552,    13,
-     553,   554,   555,   556,   316,   317,   557,   565,   558,   376,
-     581,   575,    12,   579,   584,    14,    13,   583,   590,   585,
-     588,    15,   311,   377,   591,   593,   586,   378,   379,   380,
-     381,   382,    14,   383,   587,   596,   597,   311,    15,   598,
-     312,   384,   318,   319,   320,   321,   322,   608,   602,   323,
-     324,   611,   325,   326,   327,   328,   329,   330,   618,   331,
-     414,   493,   616,    16,    17,    18,   385,   628,   315,  -355,
-     620,   654,   636,   105,    74,   316,   317,   641,   455,   528,
-      16,    17,    18,   501,   386,   560,   387,   388,   465,   204,
-     205,   447,   337,   467,   278,   614,   280,   315,   409,   613,
-     470,   389,   372,   356,   316,  -355,   390,   592,   391,   169,
-       0,     0,   315,   318,   319,   320,   321,   322,   392,   316,
+     439,   440,   441,   133,   619,   563,   564,    50,  -152,   133,
+     407,   408,   149,   346,   626,   -21,   212,  -139,  -152,   111,
+    -316,   418,   419,   354,    15,  -170,  -333,  -312,   -30,  -316,
+      54,    83,  -333,  -161,   306,  -152,   468,  -336,   -33,  -152,
+     178,   104,  -148,   359,  -152,  -160,  -316,    92,  -160,   644,
+     -61,  -123,   645,  -122,   285,   286,   287,  -165,  -170,   644,
+     404,   582,   645,   152,   124,  -316,   -41,   281,    53,    65,
+     570,   476,   477,   269,  -333,  -316,  -152,    70,   471,   472,
+     183,   578,  -152,  -148,  -322,   442,  -316,   568,  -161,  -316,
+     274,  -316,  -316,    54,   517,   456,  -316,   184,  -316,  -316,
+    -160,  -316,  -316,  -316,  -335,  -161,   405,  -333,   464,  -333,
+     334,   -30,   366,   183,   530,  -316,    49,  -160,    81,  -316,
+    -316,   -33,   625,   512,   513,  -148,   248,   367,    72,    62,
+     184,   606,  -123,  -316,  -123,   361,  -122,   133,  -170,  -316,
+     648,   649,   647,   515,  -170,   540,  -161,   308,   353,   133,
+      69,  -316,  -161,   446,   617,    79,   481,  -152,  -160,  -152,
+     353,   308,   362,   309,  -160,  -322,  -122,  -322,    88,   308,
+    -165,  -170,   333,   308,    83,   334,  -165,   309,   -61,   253,
+     604,   605,    82,   629,    91,   309,   308,  -333,   576,   309,
+     443,  -154,   340,  -333,   103,  -161,  -161,  -161,   106,   368,
+      96,   358,   309,  -154,   475,   -41,   364,  -160,  -160,  -160,
+     117,   -21,   348,   341,  -316,   349,  -316,  -316,   142,  -170,
+     569,  -170,   571,   572,   514,   417,   369,  -161,   144,  -161,
+    -161,  -292,   476,   477,  -292,   519,   635,   370,   342,  -160,
+    -292,  -160,  -160,   154,  -148,  -321,  -154,   151,  -292,  -122,
+    -122,  -165,  -170,  -165,  -170,   157,   308,  -292,  -154,   254,
+     340,   165,   -41,  -154,   607,   508,   159,   114,  -333,   410,
+    -333,   509,   309,  -153,   160,  -154,  -292,   599,   308,   114,
+     161,   526,  -292,  -168,    54,  -292,  -292,   610,   -41,   411,
+     170,   510,   621,   343,   309,   412,   171,  -292,   398,    55,
+    -292,   399,  -292,  -292,  -154,   452,   527,  -292,   453,  -292,
+    -292,   411,  -292,  -292,  -292,   201,  -154,   511,   253,   651,
+     652,  -292,  -154,  -292,    76,  -292,  -292,   149,  -153,   577,
+    -292,  -292,  -292,  -166,   630,   631,   632,   637,   365,   640,
+    -292,    94,   181,  -292,  -292,  -153,   114,  -292,  -292,  -292,
+    -292,   559,  -292,    67,    68,   202,  -292,  -148,  -321,  -292,
+    -292,   343,  -292,  -292,   274,   203,  -248,  -292,  -292,   186,
+     187,   188,   189,   190,   191,   192,   193,   194,   195,   196,
+     197,   574,  -169,   256,   257,  -154,  -153,  -154,   308,   206,
+     168,   208,  -153,  -292,  -292,  -292,  -168,  -154,   254,  -154,
+     523,   -41,  -168,   207,   309,  -292,  -292,  -292,  -292,  -292,
+     347,   -24,  -292,  -292,   -24,  -292,  -292,  -292,  -292,  -292,
+    -292,  -297,  -292,  -292,  -297,  -292,   209,  -292,  -292,   308,
+    -297,   573,  -154,  -154,  -154,  -153,  -153,  -153,  -297,  -321,
+    -148,  -321,   308,   243,   609,   309,  -166,  -297,   247,   308,
+     525,   298,  -166,   453,  -167,   308,   529,  -245,   309,   207,
+     551,    85,    86,   334,  -154,   309,  -297,  -153,   250,  -153,
+     360,   309,  -297,   258,   282,  -297,  -297,  -168,   292,  -168,
+     186,   187,   188,   189,   190,   191,   602,  -297,   562,   295,
+    -297,   334,  -297,  -297,   296,  -169,   297,  -297,   308,  -297,
+    -297,  -169,  -297,  -297,  -297,  -244,   566,   304,   332,   353,
+     335,  -297,   338,  -297,   309,  -297,  -297,   339,   373,   375,
+    -297,  -297,  -297,   580,   396,   594,   353,  -166,   595,  -166,
+    -297,   397,   600,  -297,  -297,   334,   374,  -297,  -297,  -297,
+    -297,   395,  -297,  -245,  -245,  -245,  -297,    75,  -227,  -297,
+    -297,   601,  -297,  -297,   334,   413,   424,  -297,  -297,   186,
+     187,   188,   189,   190,   191,   416,   612,  -167,  -227,   353,
+     308,   444,   308,  -167,  -227,  -245,  -169,   622,  -169,   639,
+     353,   448,   334,  -297,  -297,  -297,   309,   449,   309,   451,
+     531,  -244,  -244,  -244,   466,  -297,  -297,  -297,  -297,  -297,
+     473,  -228,  -297,  -297,   474,  -297,  -297,  -297,  -297,  -297,
+    -297,  -276,  -297,  -297,  -276,  -297,   653,  -297,  -297,   334,
+    -276,  -228,   507,  -244,   482,   308,   353,  -228,  -276,   485,
+     532,   486,   499,   422,   500,   533,   506,  -276,   518,   521,
+     522,   309,   534,   535,   524,   546,   623,   539,  -167,   547,
+    -167,   549,   550,   552,   553,   554,  -276,   555,   556,   536,
+     557,   565,  -276,  -352,   537,  -276,  -276,   558,   575,   -89,
+     579,   581,   583,   584,   588,   590,   591,  -276,   593,   596,
+    -276,   597,  -276,  -276,   598,   618,   -89,  -276,   608,  -276,
+    -276,   611,  -276,  -276,  -276,   624,   493,   620,   628,   636,
+    -143,  -276,   641,  -276,   654,  -276,  -276,   105,    74,  -143,
+    -276,  -276,  -276,   455,   447,   337,   528,   501,   560,   280,
+    -276,   278,   465,  -276,  -276,   467,   409,  -276,  -276,  -276,
+    -276,   204,  -276,   205,   -89,   -89,  -276,   470,   -89,  -276,
+    -276,   614,  -276,  -276,   613,  -143,   356,  -276,  -276,   592,
+     169,   372,     0,     0,     0,  -143,     0,     0,   483,   -89,
+       0,     0,   -89,     0,     0,     0,   118,   119,   120,  -143,
+    -148,     0,  -143,  -276,  -276,  -276,  -143,     0,     0,  -148,
+       0,  -143,     0,  -143,     0,  -276,  -276,  -276,  -276,  -276,
+       0,     0,  -276,  -276,  -143,  -276,  -276,  -276,  -276,  -276,
+    -276,     0,  -276,  -276,   293,  -276,   294,  -276,  -276,  -243,
+     121,     0,  -243,  -143,     0,  -148,     0,     0,  -243,  -143,
+       0,     0,     0,     0,     0,  -148,  -243,     0,     0,     0,
+       0,     0,   118,   119,   120,  -243,     0,     0,     0,  -148,
+       0,     0,  -148,     0,     0,     0,  -148,     0,     0,     0,
+     122,  -148,     0,   149,  -243,     0,     0,     0,     0,     0,
+    -243,     0,     0,  -243,  -243,     0,   123,     0,     0,     0,
+       0,     0,     0,     0,     0,  -243,   121,     0,  -243,     0,
+    -243,  -243,     0,  -148,     0,  -243,   502,  -243,  -243,  -148,
+    -243,  -243,  -243,     0,  -143,     0,  -143,   353,     0,  -243,
+       0,  -243,     0,  -243,  -243,     0,     0,     0,  -243,  -243,
+    -243,     0,   124,   125,   126,     0,   122,     0,  -243,     0,
+       0,  -243,  -243,     0,     0,  -243,  -243,  -243,  -243,     0,
+    -243,     0,   123,     0,  -243,     0,     0,  -243,  -243,     0,
+    -243,  -243,     0,     0,     0,  -243,  -243,   127,     0,     0,
+       0,     0,   -86,     0,     0,     0,  -174,     0,  -118,     0,
+     128,     0,     0,     0,  -148,   489,  -148,     0,     0,   -86,
+       0,  -243,  -243,  -243,     0,  -118,     0,     0,   124,   125,
+     126,     0,   490,  -243,  -243,  -243,  -243,  -243,     0,     0,
+    -243,  -243,     0,  -243,  -243,  -243,  -243,  -243,  -243,  -277,
+    -243,  -243,  -277,  -243,     0,  -243,  -243,     0,  -277,     0,
+       0,     0,     0,   127,     0,     0,  -277,   -86,   -86,     0,
+       0,   -86,     0,  -118,  -118,  -277,   128,  -118,     0,  -154,
+     491,   492,     0,     0,   493,     0,     0,     0,   109,     0,
+       0,   487,   -86,     0,  -277,   -86,     0,   152,  -118,     0,
+    -277,  -118,     0,  -277,  -277,   -91,   489,     0,   -91,   118,
+     119,   120,     0,     0,     0,  -277,     0,     0,  -277,     0,
+    -277,  -277,     0,   490,   110,  -277,     0,  -277,  -277,     0,
+    -277,  -277,  -277,     0,  -154,     0,     0,     0,     0,  -277,
+       0,  -277,     0,  -277,  -277,     0,     0,     0,  -277,  -277,
+    -277,  -154,     0,     0,     0,   114,     0,     0,  -277,     0,
+     111,  -277,  -277,     0,     0,  -277,  -277,  -277,  -277,     0,
+    -277,   491,   492,     0,  -277,   493,     0,  -277,  -277,     0,
+    -277,  -277,     0,     0,     0,  -277,  -277,     0,     0,     0,
+       0,     0,  -154,   122,     0,     0,   -90,     0,  -154,   -90,
+       0,     0,     0,     0,     0,  -147,     0,     0,     0,   123,
+       0,  -277,  -277,  -277,  -147,     0,     0,     0,     0,     0,
+       0,     0,     0,  -277,  -277,  -277,  -277,  -277,     0,     0,
+    -277,  -277,     0,  -277,  -277,  -277,  -277,  -277,  -277,     0,
+    -277,  -277,   505,  -277,  -183,  -277,  -277,  -183,     0,     0,
+    -147,     0,     0,  -183,     0,   124,   125,   126,     0,     0,
+    -147,   310,     0,     0,     0,     0,     0,     0,     0,     0,
+    -183,     0,     0,  -154,  -147,  -154,     0,  -147,     0,     0,
+       0,  -147,     0,     0,     0,     0,  -147,     0,     0,  -183,
+     127,     0,     0,     0,     0,  -183,     0,     0,   311,  -183,
+       0,     0,     0,   128,     0,     0,     0,     0,     0,     0,
+    -183,     0,     0,  -183,     0,  -183,  -183,     0,  -147,     0,
+    -183,   308,  -183,  -183,  -147,  -183,  -183,  -183,     0,     0,
+       0,     0,     0,     0,  -183,     0,  -183,   309,  -183,  -183,
+       0,     0,     0,  -183,  -183,   312,     0,     0,     0,     0,
+       0,     0,     0,  -183,     0,     0,  -183,  -183,     0,     0,
+    -183,  -183,  -183,  -183,     0,   313,     0,     0,     0,  -183,
+       0,     0,   314,   315,     0,  -183,  -183,     0,     0,     0,
+     316,   317,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -147,
+       0,  -147,     0,     0,     0,     0,  -183,  -183,  -183,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   318,   319,
+     320,   321,   322,     0,     0,   323,   324,     0,   325,   326,
+     327,   328,   329,   330,  -202,   331,  -183,  -202,  -183,     0,
+    -183,  -183,     0,  -202,     0,     0,     0,     0,     0,     0,
+       0,  -202,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,     0,     0,     0,  -128,     0,     0,     0,     0,     0,
+       0,     0,     0,   109,     0,     0,     0,     0,     0,  -202,
+       0,     0,     0,     0,     0,  -202,     0,     0,   311,  -202,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -202,     0,     0,  -202,     0,  -202,  -202,     0,     0,   110,
+    -202,     0,  -202,  -202,     0,  -202,  -202,  -202,     0,  -128,
+       0,     0,     0,     0,  -202,     0,  -202,     0,  -202,  -202,
+       0,     0,     0,  -202,  -202,   312,  -128,     0,     0,     0,
+    -128,     0,     0,  -202,     0,   111,  -202,  -202,     0,     0,
+    -202,  -202,  -202,  -202,     0,   414,     0,     0,     0,  -202,
+       0,     0,  -202,   315,     0,  -202,  -202,     0,     0,     0,
+     316,   317,     0,     0,     0,     0,     0,  -128,     0,     0,
+       0,     0,     0,  -128,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -202,  -202,  -202,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   318,   319,
+     320,   321,   322,     0,     0,   323,   324,     0,   325,   326,
+     327,   328,   329,   330,  -201,   331,  -202,  -201,  -202,     0,
+    -202,  -202,     0,  -201,     0,     0,     0,     0,     0,     0,
+       0,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
+    -201,     0,     0,     0,     0,     0,     0,     0,  -128,     0,
+    -128,     0,     0,     0,     0,     0,     0,     0,     0,  -201,
+       0,     0,     0,     0,     0,  -201,     0,     0,  -201,  -201,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -201,     0,     0,  -201,     0,  -201,  -201,     0,     0,     0,
+    -201,     0,  -201,  -201,     0,  -201,  -201,  -201,     0,     0,
+       0,     0,     0,     0,  -201,     0,  -201,     0,  -201,  -201,
+       0,     0,     0,  -201,  -201,  -201,     0,     0,     0,     0,
+       0,     0,     0,  -201,     0,     0,  -201,  -201,     0,     0,
+    -201,  -201,  -201,  -201,     0,  -201,     0,     0,     0,  -201,
+       0,     0,  -201,  -201,     0,  -201,  -201,     0,     0,     0,
+     316,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -201,  -201,  -201,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -201,  -201,
+    -201,  -201,  -201,     0,     0,  -201,  -201,     0,  -201,  -201,
+     327,   328,   329,   330,  -216,   331,  -201,  -216,  -201,     0,
+    -201,  -201,     0,  -216,     0,     0,     0,     0,     0,     0,
+       0,  -216,     0,     0,     0,     0,     0,     0,     0,     0,
+    -216,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -216,
+       0,     0,     0,     0,     0,  -216,     0,     0,  -216,  -216,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -216,     0,     0,  -216,     0,  -216,  -216,     0,     0,     0,
+    -216,     0,  -216,  -216,     0,  -216,  -216,  -216,     0,     0,
+       0,     0,     0,     0,  -216,     0,  -216,     0,  -216,  -216,
+       0,     0,     0,  -216,  -216,  -216,     0,     0,     0,     0,
+       0,     0,     0,  -216,     0,     0,  -216,  -216,     0,     0,
+    -216,  -216,  -216,  -216,     0,  -216,     0,     0,     0,  -216,
+       0,     0,  -216,  -216,     0,  -216,  -216,     0,     0,     0,
+    -216,  -216,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -216,  -216,  -216,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -216,  -216,
+    -216,  -216,  -216,     0,     0,  -216,  -216,     0,  -216,  -216,
+    -216,  -216,  -216,  -216,  -208,   331,  -216,  -208,  -216,     0,
+    -216,  -216,     0,  -208,     0,     0,     0,     0,     0,     0,
+       0,  -208,     0,     0,     0,     0,     0,     0,     0,     0,
+    -208,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
+       0,     0,     0,     0,     0,  -208,     0,     0,  -208,  -208,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -208,     0,     0,  -208,     0,  -208,  -208,     0,     0,     0,
+    -208,     0,  -208,  -208,     0,  -208,  -208,  -208,     0,     0,
+       0,     0,     0,     0,  -208,     0,  -208,     0,  -208,  -208,
+       0,     0,     0,  -208,  -208,  -208,     0,     0,     0,     0,
+       0,     0,     0,  -208,     0,     0,  -208,  -208,     0,     0,
+    -208,  -208,  -208,  -208,     0,  -208,     0,     0,     0,  -208,
+       0,     0,  -208,  -208,     0,  -208,  -208,     0,     0,     0,
+     316,  -208,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -208,  -208,  -208,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -208,  -208,
+    -208,  -208,  -208,     0,     0,  -208,  -208,     0,  -208,  -208,
+     327,   328,   329,   330,  -207,   331,  -208,  -207,  -208,     0,
+    -208,  -208,     0,  -207,     0,     0,     0,     0,     0,     0,
+       0,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
+       0,     0,     0,     0,     0,  -207,     0,     0,  -207,  -207,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -207,     0,     0,  -207,     0,  -207,  -207,     0,     0,     0,
+    -207,     0,  -207,  -207,     0,  -207,  -207,  -207,     0,     0,
+       0,     0,     0,     0,  -207,     0,  -207,     0,  -207,  -207,
+       0,     0,     0,  -207,  -207,  -207,     0,     0,     0,     0,
+       0,     0,     0,  -207,     0,     0,  -207,  -207,     0,     0,
+    -207,  -207,  -207,  -207,     0,  -207,     0,     0,     0,  -207,
+       0,     0,  -207,  -207,     0,  -207,  -207,     0,     0,     0,
+     316,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -207,  -207,  -207,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -207,  -207,
+    -207,  -207,  -207,     0,     0,  -207,  -207,     0,  -207,  -207,
+     327,   328,   329,   330,  -210,   331,  -207,  -210,  -207,     0,
+    -207,  -207,     0,  -210,     0,     0,     0,     0,     0,     0,
+       0,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
+    -210,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -210,
+       0,     0,     0,     0,     0,  -210,     0,     0,  -210,  -210,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -210,     0,     0,  -210,     0,  -210,  -210,     0,     0,     0,
+    -210,     0,  -210,  -210,     0,  -210,  -210,  -210,     0,     0,
+       0,     0,     0,     0,  -210,     0,  -210,     0,  -210,  -210,
+       0,     0,     0,  -210,  -210,  -210,     0,     0,     0,     0,
+       0,     0,     0,  -210,     0,     0,  -210,  -210,     0,     0,
+    -210,  -210,  -210,  -210,     0,  -210,     0,     0,     0,  -210,
+       0,     0,  -210,  -210,     0,  -210,  -210,     0,     0,     0,
+     316,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -210,  -210,  -210,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -210,  -210,
+    -210,  -210,  -210,     0,     0,  -210,  -210,     0,  -210,  -210,
+    -210,  -210,  -210,   330,  -209,   331,  -210,  -209,  -210,     0,
+    -210,  -210,     0,  -209,     0,     0,     0,     0,     0,     0,
+       0,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
+    -209,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -209,
+       0,     0,     0,     0,     0,  -209,     0,     0,  -209,  -209,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -209,     0,     0,  -209,     0,  -209,  -209,     0,     0,     0,
+    -209,     0,  -209,  -209,     0,  -209,  -209,  -209,     0,     0,
+       0,     0,     0,     0,  -209,     0,  -209,     0,  -209,  -209,
+       0,     0,     0,  -209,  -209,  -209,     0,     0,     0,     0,
+       0,     0,     0,  -209,     0,     0,  -209,  -209,     0,     0,
+    -209,  -209,  -209,  -209,     0,  -209,     0,     0,     0,  -209,
+       0,     0,  -209,  -209,     0,  -209,  -209,     0,     0,     0,
+     316,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -209,  -209,  -209,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -209,  -209,
+    -209,  -209,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,
+    -209,  -209,  -209,   330,  -211,   331,  -209,  -211,  -209,     0,
+    -209,  -209,     0,  -211,     0,     0,     0,     0,     0,     0,
+       0,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
+    -211,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -211,
+       0,     0,     0,     0,     0,  -211,     0,     0,  -211,  -211,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -211,     0,     0,  -211,     0,  -211,  -211,     0,     0,     0,
+    -211,     0,  -211,  -211,     0,  -211,  -211,  -211,     0,     0,
+       0,     0,     0,     0,  -211,     0,  -211,     0,  -211,  -211,
+       0,     0,     0,  -211,  -211,  -211,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,  -211,  -211,     0,     0,
+    -211,  -211,  -211,  -211,     0,  -211,     0,     0,     0,  -211,
+       0,     0,  -211,  -211,     0,  -211,  -211,     0,     0,     0,
+     316,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -211,  -211,  -211,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -211,  -211,
+    -211,  -211,  -211,     0,     0,  -211,  -211,     0,  -211,  -211,
+    -211,  -211,  -211,   330,  -212,   331,  -211,  -212,  -211,     0,
+    -211,  -211,     0,  -212,     0,     0,     0,     0,     0,     0,
+       0,  -212,     0,     0,     0,     0,     0,     0,     0,     0,
+    -212,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -212,
+       0,     0,     0,     0,     0,  -212,     0,     0,  -212,  -212,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -212,     0,     0,  -212,     0,  -212,  -212,     0,     0,     0,
+    -212,     0,  -212,  -212,     0,  -212,  -212,  -212,     0,     0,
+       0,     0,     0,     0,  -212,     0,  -212,     0,  -212,  -212,
+       0,     0,     0,  -212,  -212,  -212,     0,     0,     0,     0,
+       0,     0,     0,  -212,     0,     0,  -212,  -212,     0,     0,
+    -212,  -212,  -212,  -212,     0,  -212,     0,     0,     0,  -212,
+       0,     0,  -212,  -212,     0,  -212,  -212,     0,     0,     0,
+     316,  -212,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -275,     0,     0,  -275,     0,  -212,  -212,  -212,     0,
+    -275,     0,     0,     0,     0,     0,     0,     0,  -212,  -212,
+    -212,  -212,  -212,     0,     0,  -212,  -212,  -275,  -212,  -212,
+    -212,  -212,  -212,  -212,     0,   331,  -212,     0,  -212,     0,
+    -212,  -212,     0,     0,     0,     0,  -275,     0,     0,     0,
+       0,     0,  -275,     0,     0,   311,  -275,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -275,     0,     0,
+    -275,     0,  -275,  -275,     0,     0,     0,  -275,     0,  -275,
+    -275,     0,  -275,  -275,  -275,     0,     0,     0,     0,     0,
+       0,  -275,     0,  -275,     0,  -275,  -275,     0,     0,     0,
+    -275,  -275,   312,     0,     0,     0,     0,     0,     0,     0,
+    -275,     0,     0,  -275,  -275,     0,     0,  -275,  -275,  -275,
+    -275,     0,   414,     0,     0,     0,  -275,     0,     0,     0,
+     315,     0,  -275,  -275,     0,     0,     0,   316,   317,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -275,  -275,  -275,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   318,   319,   320,   321,   322,
+       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,  -234,   331,  -275,  -234,  -275,     0,  -275,  -275,     0,
+    -234,     0,     0,     0,     0,     0,     0,     0,  -234,     0,
+       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -234,     0,     0,     0,
+       0,     0,  -234,     0,     0,   311,  -234,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
+    -234,     0,  -234,  -234,     0,     0,     0,  -234,     0,  -234,
+    -234,     0,  -234,  -234,  -234,     0,     0,     0,     0,     0,
+       0,  -234,     0,  -234,     0,  -234,  -234,     0,     0,     0,
+    -234,  -234,  -234,     0,     0,     0,     0,     0,     0,     0,
+    -234,     0,     0,  -234,  -234,     0,     0,  -234,  -234,  -234,
+    -234,     0,  -234,     0,     0,     0,  -234,     0,     0,  -234,
+     315,     0,  -234,  -234,     0,     0,     0,   316,  -234,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -235,     0,     0,
+    -235,     0,     0,  -234,  -234,  -234,  -235,     0,     0,     0,
+       0,     0,     0,     0,  -235,  -234,  -234,  -234,     0,     0,
+       0,     0,     0,  -235,     0,   325,   326,   327,   328,   329,
+     330,     0,   331,  -234,     0,  -234,     0,  -234,  -234,     0,
+       0,     0,  -235,     0,     0,     0,     0,     0,  -235,     0,
+       0,   311,  -235,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -235,     0,     0,  -235,     0,  -235,  -235,
+       0,     0,     0,  -235,     0,  -235,  -235,     0,  -235,  -235,
+    -235,     0,     0,     0,     0,     0,     0,  -235,     0,  -235,
+       0,  -235,  -235,     0,     0,     0,  -235,  -235,  -235,     0,
+       0,     0,     0,     0,     0,     0,  -235,     0,     0,  -235,
+    -235,     0,     0,  -235,  -235,  -235,  -235,     0,  -235,     0,
+       0,     0,  -235,     0,     0,  -235,   315,     0,  -235,  -235,
+       0,     0,     0,   316,  -235,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -236,     0,     0,  -236,     0,     0,  -235,
+    -235,  -235,  -236,     0,     0,     0,     0,     0,     0,     0,
+    -236,  -235,  -235,  -235,     0,     0,     0,     0,     0,  -236,
+       0,   325,   326,   327,   328,   329,   330,     0,   331,  -235,
+       0,  -235,     0,  -235,  -235,     0,     0,     0,  -236,     0,
+       0,     0,     0,     0,  -236,     0,     0,   311,  -236,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -236,
+       0,     0,  -236,     0,  -236,  -236,     0,     0,     0,  -236,
+       0,  -236,  -236,     0,  -236,  -236,  -236,     0,     0,     0,
+       0,     0,     0,  -236,     0,  -236,     0,  -236,  -236,     0,
+       0,     0,  -236,  -236,  -236,     0,     0,     0,     0,     0,
+       0,     0,  -236,     0,     0,  -236,  -236,     0,     0,  -236,
+    -236,  -236,  -236,     0,  -236,     0,     0,     0,  -236,     0,
+       0,  -236,   315,     0,  -236,  -236,     0,     0,     0,   316,
+    -236,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -237,
+       0,     0,  -237,     0,     0,  -236,  -236,  -236,  -237,     0,
+       0,     0,     0,     0,     0,     0,  -237,  -236,  -236,  -236,
+       0,     0,     0,     0,     0,  -237,     0,   325,   326,   327,
+     328,   329,   330,     0,   331,  -236,     0,  -236,     0,  -236,
+    -236,     0,     0,     0,  -237,     0,     0,     0,     0,     0,
+    -237,     0,     0,   311,  -237,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -237,     0,     0,  -237,     0,
+    -237,  -237,     0,     0,     0,  -237,     0,  -237,  -237,     0,
+    -237,  -237,  -237,     0,     0,     0,     0,     0,     0,  -237,
+       0,  -237,     0,  -237,  -237,     0,     0,     0,  -237,  -237,
+    -237,     0,     0,     0,     0,     0,     0,     0,  -237,     0,
+       0,  -237,  -237,     0,     0,  -237,  -237,  -237,  -237,     0,
+    -237,     0,     0,     0,  -237,     0,     0,  -237,   315,     0,
+    -237,  -237,     0,     0,     0,   316,  -237,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -213,     0,     0,  -213,     0,
+       0,  -237,  -237,  -237,  -213,     0,     0,     0,     0,     0,
+       0,     0,  -213,  -237,  -237,  -237,     0,     0,     0,     0,
+       0,  -213,     0,   325,   326,   327,   328,   329,   330,     0,
+     331,  -237,     0,  -237,     0,  -237,  -237,     0,     0,     0,
+    -213,     0,     0,     0,     0,     0,  -213,     0,     0,   311,
+    -213,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -213,     0,     0,  -213,     0,  -213,  -213,     0,     0,
+       0,  -213,     0,  -213,  -213,     0,  -213,  -213,  -213,     0,
+       0,     0,     0,     0,     0,  -213,     0,  -213,     0,  -213,
+    -213,     0,     0,     0,  -213,  -213,     0,     0,     0,     0,
+       0,     0,     0,     0,  -213,     0,     0,  -213,  -213,     0,
+       0,  -213,  -213,  -213,  -213,     0,  -213,     0,     0,     0,
+    -213,     0,     0,  -213,   315,     0,  -213,  -213,     0,     0,
+       0,   316,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -215,     0,     0,  -215,     0,     0,     0,
+       0,     0,  -215,     0,     0,     0,     0,  -213,  -213,  -213,
+    -215,     0,     0,     0,     0,     0,     0,     0,     0,  -215,
+       0,     0,   321,   322,     0,     0,   323,   324,     0,   325,
+     326,   327,   328,   329,   330,     0,   331,  -213,  -215,  -213,
+       0,  -213,  -213,     0,  -215,     0,     0,   311,  -215,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -215,
+       0,     0,  -215,     0,  -215,  -215,     0,     0,     0,  -215,
+       0,  -215,  -215,     0,  -215,  -215,  -215,     0,     0,     0,
+       0,     0,     0,  -215,     0,  -215,     0,  -215,  -215,     0,
+       0,     0,  -215,  -215,     0,     0,     0,     0,     0,     0,
+       0,     0,  -215,     0,     0,  -215,  -215,     0,     0,  -215,
+    -215,  -215,  -215,     0,  -215,     0,     0,     0,  -215,     0,
+       0,  -215,   315,     0,  -215,  -215,     0,     0,     0,   316,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -231,     0,     0,  -231,     0,     0,     0,     0,     0,
+    -231,     0,     0,     0,     0,  -215,  -215,  -215,  -231,     0,
+       0,     0,     0,     0,     0,     0,     0,  -231,     0,     0,
+     321,   322,     0,     0,   323,   324,     0,   325,   326,   327,
+     328,   329,   330,     0,   331,  -215,  -231,  -215,     0,  -215,
+    -215,     0,  -231,     0,     0,   311,  -231,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -231,     0,     0,
+    -231,     0,  -231,  -231,     0,     0,     0,  -231,     0,  -231,
+    -231,     0,  -231,  -231,  -231,     0,     0,     0,     0,     0,
+       0,  -231,     0,  -231,     0,  -231,  -231,     0,     0,     0,
+    -231,  -231,     0,     0,     0,     0,     0,     0,     0,     0,
+    -231,     0,     0,  -231,  -231,     0,     0,  -231,  -231,  -231,
+    -231,     0,  -231,     0,     0,     0,  -231,     0,     0,  -231,
+     315,     0,  -231,  -231,     0,     0,     0,   316,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -232,
+       0,     0,  -232,     0,     0,     0,     0,     0,  -232,     0,
+       0,     0,     0,  -231,  -231,  -231,  -232,     0,     0,     0,
+       0,     0,     0,     0,     0,  -232,     0,     0,   321,   322,
+       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
+     330,     0,   331,  -231,  -232,  -231,     0,  -231,  -231,     0,
+    -232,     0,     0,   311,  -232,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -232,     0,     0,  -232,     0,
+    -232,  -232,     0,     0,     0,  -232,     0,  -232,  -232,     0,
+    -232,  -232,  -232,     0,     0,     0,     0,     0,     0,  -232,
+       0,  -232,     0,  -232,  -232,     0,     0,     0,  -232,  -232,
+       0,     0,     0,     0,     0,     0,     0,     0,  -232,     0,
+       0,  -232,  -232,     0,     0,  -232,  -232,  -232,  -232,     0,
+    -232,     0,     0,     0,  -232,     0,     0,  -232,   315,     0,
+    -232,  -232,     0,     0,     0,   316,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -233,     0,     0,
+    -233,     0,     0,     0,     0,     0,  -233,     0,     0,     0,
+       0,  -232,  -232,  -232,  -233,     0,     0,     0,     0,     0,
+       0,     0,     0,  -233,     0,     0,   321,   322,     0,     0,
      323,   324,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -355,  -355,  -355,   321,   322,     0,     0,   323,
-     324,   393,   325,   326,   327,   328,   329,   330,     0,   331,
-    -355,  -355,     0,     0,  -355,  -355,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,   186,   187,   188,   189,   190,
-     191,   192,   193,   194,   195,   196,   197
+     331,  -232,  -233,  -232,     0,  -232,  -232,     0,  -233,     0,
+       0,   311,  -233,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -233,     0,     0,  -233,     0,  -233,  -233,
+       0,     0,     0,  -233,     0,  -233,  -233,     0,  -233,  -233,
+    -233,     0,     0,     0,     0,     0,     0,  -233,     0,  -233,
+       0,  -233,  -233,     0,     0,     0,  -233,  -233,     0,     0,
+       0,     0,     0,     0,     0,     0,  -233,     0,     0,  -233,
+    -233,     0,     0,  -233,  -233,  -233,  -233,     0,  -233,     0,
+       0,     0,  -233,     0,     0,  -233,   315,     0,  -233,  -233,
+       0,     0,     0,   316,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,  -214,     0,     0,  -214,     0,
+       0,     0,     0,     0,  -214,     0,     0,     0,     0,  -233,
+    -233,  -233,  -214,     0,     0,     0,     0,     0,     0,     0,
+       0,  -214,     0,     0,   321,   322,     0,     0,   323,   324,
+       0,   325,   326,   327,   328,   329,   330,     0,   331,  -233,
+    -214,  -233,     0,  -233,  -233,     0,  -214,     0,     0,   311,
+    -214,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -214,     0,     0,  -214,     0,  -214,  -214,     0,     0,
+       0,  -214,     0,  -214,  -214,     0,  -214,  -214,  -214,     0,
+       0,     0,     0,     0,  -145,  -214,     0,  -214,     0,  -214,
+    -214,     0,     0,  -145,  -214,  -214,     0,     0,     0,     0,
+       0,     0,     0,     0,  -214,     0,     0,  -214,  -214,     0,
+       0,  -214,  -214,  -214,  -214,     0,  -214,     0,     0,     0,
+    -214,     0,     0,  -214,   315,     0,  -214,  -214,     0,  -145,
+       0,   316,     0,     0,     0,     0,     0,     0,     0,  -145,
+       0,     0,     0,  -217,     0,     0,  -217,     0,     0,     0,
+       0,     0,  -217,  -145,     0,     0,  -145,  -214,  -214,  -214,
+    -145,     0,     0,     0,     0,  -145,     0,  -145,     0,  -217,
+       0,     0,   321,   322,     0,     0,   323,   324,   350,   325,
+     326,   327,   328,   329,   330,     0,   331,  -214,  -217,  -214,
+       0,  -214,  -214,     0,  -217,     0,     0,  -145,  -217,     0,
+       0,     0,     0,  -145,     0,     0,     0,     0,     0,  -217,
+       0,     0,  -217,     0,  -217,  -217,     0,     0,     0,  -217,
+       0,  -217,  -217,     0,  -217,  -217,  -217,     0,     0,     0,
+       0,     0,     0,  -217,     0,  -217,     0,  -217,  -217,     0,
+       0,     0,  -217,  -217,     0,     0,     0,     0,  -151,     0,
+       0,     0,  -217,     0,     0,  -217,  -217,  -151,     0,  -217,
+    -217,  -217,  -217,     0,     0,     0,     0,     0,  -217,     0,
+       0,     0,     0,     0,  -217,  -217,  -218,     0,  -145,  -218,
+    -145,     0,     0,     0,     0,  -218,     0,     0,     0,     0,
+       0,     0,     0,  -151,     0,     0,     0,     0,     0,     0,
+       0,     0,  -218,  -151,     0,  -217,  -217,  -217,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -151,  -218,     0,     0,  -151,     0,     0,  -218,     0,  -151,
+       0,  -218,     0,     0,     0,  -217,     0,  -217,     0,  -217,
+    -217,  -150,  -218,     0,     0,  -218,     0,  -218,  -218,     0,
+    -150,     0,  -218,     0,  -218,  -218,     0,  -218,  -218,  -218,
+       0,  -151,     0,     0,   308,     0,  -218,  -151,  -218,     0,
+    -218,  -218,     0,     0,     0,  -218,  -218,     0,     0,     0,
+     309,     0,     0,     0,     0,  -218,  -150,     0,  -218,  -218,
+       0,     0,   308,  -218,  -218,  -218,  -150,     0,     0,     0,
+       0,  -218,     0,     0,     0,     0,     0,  -218,  -218,     0,
+     544,  -309,     0,  -150,  -309,     0,     0,  -150,     0,     0,
+    -309,     0,  -150,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -309,  -218,  -218,
+    -218,     0,  -151,     0,  -151,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -150,     0,  -309,     0,     0,     0,
+    -150,     0,     0,     0,     0,     0,  -309,     0,  -218,  -309,
+    -218,     0,  -218,  -218,  -309,     0,     0,  -309,     0,     0,
+    -309,     0,  -309,  -309,     0,     0,     0,  -309,     0,  -309,
+    -309,     0,  -309,  -309,  -309,     0,     0,     0,     0,     0,
+       0,     0,  -309,     0,     0,  -309,  -309,     0,     0,     0,
+    -309,  -309,     0,     0,     0,  -309,     0,  -353,     0,     0,
+       0,     0,     0,     0,  -309,     0,  -353,     0,     0,     0,
+    -309,     0,  -309,     0,  -309,  -150,  -309,  -150,     0,     0,
+       0,     0,  -309,  -353,  -309,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -317,     0,     0,     0,
+       0,     0,  -353,     0,     0,  -317,     0,     0,     0,     0,
+       0,     0,  -353,     0,     0,     0,     0,     0,     0,     0,
+    -309,  -309,  -317,  -353,  -309,     0,  -353,     0,  -353,  -353,
+       0,     0,     0,  -353,     0,  -353,  -353,     0,  -353,  -353,
+    -353,  -317,     0,     0,  -309,  -309,    80,  -309,  -309,     0,
+       0,  -317,  -353,     0,     0,     0,  -353,  -353,     0,     0,
+       0,     0,  -317,     0,     0,  -317,     0,  -317,  -317,     0,
+    -353,     0,  -317,   308,  -317,  -317,  -353,  -317,  -317,  -317,
+       0,     0,     0,  -320,     0,     0,   354,     0,  -353,   309,
+       0,  -317,  -320,     0,     0,  -317,  -317,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -317,
+       0,     0,     0,     0,     0,  -317,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -317,  -320,     0,
+       0,     0,     0,     0,  -320,     0,     0,     0,  -320,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -353,  -320,  -353,  -353,  -320,     0,     0,     0,  -320,
+       0,     0,     0,     0,  -320,     0,  -320,     0,     0,     0,
+       0,     0,  -299,     0,     0,     0,     0,  -320,     0,     0,
+       0,  -299,     0,     0,     0,     0,     0,     0,     0,   616,
+    -317,     0,  -317,  -317,     0,     0,  -320,     0,   531,   308,
+       0,     0,  -320,     0,     0,     0,     0,     0,   355,     0,
+       0,     0,     0,     0,     0,   309,     0,  -299,     0,     0,
+       0,     0,     0,  -300,     0,     0,     0,  -299,     0,     0,
+       0,     0,  -300,     0,     0,     0,     0,     0,   532,     0,
+       0,  -299,     0,   533,  -299,  -320,  -320,  -320,  -299,   531,
+     534,   535,     0,  -299,     0,  -299,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,   536,  -300,     0,
+       0,  -352,   537,     0,     0,  -320,     0,  -320,  -300,  -320,
+    -320,     0,     0,     0,     0,  -299,     0,     0,     0,   532,
+       0,  -299,  -300,     0,   533,  -300,     0,     0,     0,  -300,
+       0,   534,   535,     0,  -300,     0,  -300,  -164,  -164,  -164,
+    -164,     0,     0,     0,     0,     0,  -164,     0,   536,     0,
+       0,     0,  -352,   537,     0,     0,     0,     0,  -142,  -142,
+    -142,  -142,     0,     0,     0,     0,  -300,   173,     0,     0,
+       0,     0,  -300,     0,     0,     0,     0,     0,     0,     0,
+    -164,  -164,  -164,     0,     0,     0,  -142,  -142,  -142,  -142,
+       0,     0,     0,     0,     0,   173,  -299,     0,  -299,  -305,
+       0,  -142,  -142,  -142,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -164,
+       0,     0,  -164,     0,     0,     0,     0,     0,     0,  -142,
+    -142,  -142,     0,     0,     0,     0,     0,     0,  -164,     0,
+    -142,     0,     0,  -142,     0,     0,     0,  -300,     0,  -300,
+    -306,     0,     0,     0,     0,  -164,     0,     0,   107,  -142,
+       0,     0,     0,     0,     0,     0,     0,     0,  -142,  -164,
+       0,  -142,  -142,  -142,  -142,  -142,  -142,     0,     0,     0,
+       0,   173,     0,     0,  -164,  -164,  -164,  -142,     0,     0,
+    -142,     0,     0,   214,   118,   119,   120,     0,     0,     0,
+       0,     0,     0,     0,  -142,  -142,  -142,  -142,     0,     0,
+       0,     0,     0,     0,     0,  -142,  -142,  -142,  -142,  -164,
+    -164,   214,   118,   119,   120,     0,     0,  -164,     0,     0,
+       0,     0,  -164,  -142,  -142,  -142,   215,   216,   217,     0,
+    -142,  -142,   214,   118,   119,   120,     0,     0,  -142,   401,
+       0,     0,     0,  -142,  -142,     0,     0,  -142,     0,     0,
+       0,     0,     0,     0,   215,   216,   217,     0,  -142,  -142,
+       0,     0,     0,  -142,     0,   218,  -142,   567,   122,     0,
+       0,  -142,     0,     0,     0,   215,   216,   217,     0,     0,
+    -142,     0,     0,     0,   123,     0,     0,    75,     0,     0,
+       0,     0,     0,   218,  -142,   272,   122,     0,     0,     0,
+       0,   219,     0,   214,   118,   119,   120,     0,     0,  -142,
+    -142,  -142,   123,     0,   218,   220,     0,   122,     0,     0,
+     298,     0,     0,     0,     0,   214,   118,   119,   120,   219,
+     124,   125,   126,   123,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,   220,  -142,  -142,   215,   216,   217,     0,
+     219,     0,  -142,     0,     0,     0,     0,  -142,   124,   125,
+     126,     0,     0,     0,   220,   221,   222,     0,   301,   216,
+     217,     0,     0,   223,   214,   118,   119,   120,   128,   124,
+     125,   126,     0,     0,     0,   218,     0,     0,   122,     0,
+       0,     0,     0,   221,   222,     0,     0,     0,     0,     0,
+       0,   223,     0,     0,   123,     0,   128,   218,     0,     0,
+     122,     0,     0,     0,   221,   222,     0,     0,   216,   217,
+       0,   219,   223,     0,     0,     0,   123,   128,     0,     0,
+       0,     0,     0,     0,     0,   220,     0,     0,     0,     0,
+       0,     0,     0,   302,     0,     0,     0,     0,     0,     0,
+     124,   125,   126,     0,     0,     0,   218,   220,     0,   122,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   124,   125,   126,   123,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   221,   222,  -354,     0,     0,
+       0,     0,   302,   223,     1,     0,     0,     0,   128,     0,
+       0,     0,     2,     0,     0,     0,   220,   221,   222,     3,
+       0,     0,     0,     0,     4,   223,     0,     1,     0,     0,
+     128,   124,   125,   126,     5,     2,     0,     6,     7,     0,
+       0,     0,     3,     0,     0,     0,     0,     4,     0,     8,
+       9,     0,     0,     0,     0,  -335,     0,     5,     0,    10,
+       6,     7,    11,     0,     0,     0,   221,   222,     0,     0,
+       0,     0,     8,     9,   223,     0,     0,     0,  -335,   128,
+       0,     0,    10,     0,    12,    11,     0,     0,    13,     0,
+       0,     0,     0,     0,   376,     0,     0,     0,   311,     0,
+       0,     0,     0,     0,    14,     0,     0,    12,   377,     0,
+      15,    13,   378,   379,   380,   381,   382,     0,   383,     0,
+       0,     0,     0,     0,     0,     0,   384,    14,     0,     0,
+       0,     0,     0,    15,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   312,     0,     0,     0,     0,
+       0,   385,    16,    17,    18,     0,     0,     0,     0,     0,
+     516,     0,     0,     0,     0,   414,     0,     0,     0,   386,
+       0,   387,   388,   315,     0,    16,    17,    18,     0,     0,
+     316,   317,     0,     0,     0,     0,   389,     0,     0,     0,
+    -335,   390,     0,   391,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,   392,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -335,     0,     0,     0,     0,   318,   319,
+     320,   321,   322,     0,     0,   323,   324,     0,   325,   326,
+     327,   328,   329,   330,     0,   331,   393
 };
 
 static const yytype_int16 yycheck[] =
 {
        2,   107,   149,     5,   175,    54,   148,   304,    10,   211,
-      12,   182,    57,    58,    59,   293,   155,   342,    97,    98,
-     374,    12,     3,    81,     3,     3,    12,   112,   115,    51,
-     115,   219,    58,   221,   181,   373,   183,   184,   113,     3,
-     136,   395,     3,   539,     9,    83,    48,     3,    50,    92,
-       5,     6,   566,   567,    27,   203,    19,    94,    60,    90,
-     130,     6,     3,     4,     5,     6,   495,     6,     3,   112,
-      55,   218,   151,    78,     3,   118,   223,   104,    17,    94,
-      45,   158,   159,    85,    86,   116,   117,    72,   158,   159,
-     292,    93,   588,   116,   121,   191,   133,    60,   100,   101,
-     247,   132,     3,   116,   153,   402,    47,    48,   622,   132,
-     125,    76,   125,    26,   302,   643,    81,   256,   193,   132,
-     197,   475,   310,    55,   312,   101,   654,   424,   316,   317,
+      12,   182,    57,    58,    59,   293,   342,     3,    97,    98,
+     374,     0,    58,    81,   203,    78,   112,     0,     3,   115,
+       6,   219,   115,   221,   181,    58,   183,   184,   495,     3,
+       6,   395,    58,     3,   539,     3,    48,     3,    50,    78,
+     125,    17,   155,     0,    19,     0,    70,    94,    60,     5,
+       6,    78,    94,     3,    27,     0,    80,    70,    58,     0,
+      99,   218,   151,    63,   335,   373,   223,    80,     0,   115,
+     101,    78,    99,    85,    86,   643,   347,     9,   125,   104,
+     292,    93,     3,   588,    94,    60,   654,   111,   100,   101,
+     247,   133,    99,     0,   153,   402,   121,   128,   111,    58,
+      83,     0,     9,   194,   302,    58,   197,   296,   193,     3,
+      63,   475,   310,    45,   312,   178,     3,   424,   316,   317,
      318,   319,   320,   321,   322,   323,   324,   325,   326,   327,
-     328,   329,   330,   201,    85,   499,   500,    88,   296,   207,
-     297,   298,   128,    66,     3,     4,     5,     6,    71,   197,
-     116,   308,   309,   104,   125,    78,    79,   193,    62,   125,
-     508,   194,   601,   178,   223,   197,   132,    94,   193,   266,
-     121,   266,    95,    70,   116,   116,    99,   100,   169,   170,
-     171,   166,   167,    80,   135,   150,     3,    46,    47,    48,
-     132,   132,   527,   194,     4,     5,     6,   209,   194,   150,
-     151,   152,   351,   360,   193,   193,    12,    24,   365,   366,
-     165,   518,   186,   168,   111,   331,   165,   505,   136,   168,
-       3,    94,   194,     9,   422,   197,    85,   116,    98,    88,
-     134,    37,    49,   104,   185,   186,   295,     3,     4,     5,
-       6,    24,   193,   132,   456,   104,    58,   198,    54,    92,
-     121,    63,   616,   410,   411,    70,   115,   161,   335,    45,
-      80,   568,   121,    26,   154,    80,    49,   335,   172,   112,
-     347,   189,   636,   191,   197,   118,   135,     0,    88,   347,
-      46,    47,    48,   338,   591,     3,   375,   104,   116,   196,
-     118,   150,   151,   152,   104,    81,   111,   103,   169,   170,
-     109,   192,   173,    66,   132,   194,   197,   116,    71,   116,
-     109,   118,   193,   620,   195,    78,    79,   116,   516,    85,
-     332,   104,    88,   132,   113,   132,   185,   186,     3,     4,
-       5,     6,    95,   132,   193,     3,    99,   100,   104,   198,
-     150,   151,   152,   136,   166,   167,   112,     4,     5,     6,
-     507,   195,   509,   510,   413,   121,     3,     4,     5,     6,
-       3,     4,     5,     6,   194,   424,   193,   197,   127,   135,
-     112,    46,    47,    48,   116,   185,   138,   139,   140,   141,
-     142,   143,   265,    58,   150,   151,   152,   270,   198,   194,
-     132,    48,   197,   186,   187,   188,   189,    94,   191,    46,
-      47,    48,    17,    46,    47,    48,   194,   559,     3,   197,
-      85,   123,   194,    88,   127,   197,   133,   574,   194,   185,
-     186,   197,   603,   194,   125,   194,   197,   193,   197,   104,
-     194,    88,   198,   197,   197,    17,    18,   194,    85,    54,
-     197,    88,    85,   163,   164,    88,   121,   104,   194,   194,
-     194,   197,   197,   197,   197,   194,    97,   104,   197,   518,
-     135,   104,   194,   194,   124,   197,   197,   624,   194,   626,
-     194,   197,     3,   197,   121,   150,   151,   152,   121,    26,
-       4,   493,   162,   163,   164,   121,   101,     3,   135,    46,
-      47,    83,   135,   150,   151,   152,    93,   193,     3,   194,
-      46,   194,     4,   150,   151,   152,   121,   150,   151,   152,
-     185,   186,     3,   128,   129,   193,   193,     6,   193,    66,
-      12,   136,   137,   198,    71,   115,   126,   193,   185,     4,
-       4,    78,    79,   194,   197,    82,    46,   131,   185,   186,
-       3,   198,   185,   186,   174,     3,   193,    91,    95,    76,
-     193,   198,   119,   100,     3,   198,   125,   113,   193,   174,
-     175,   176,   177,   178,   193,   193,   181,   182,     0,   184,
-     185,   186,   187,   188,   189,     7,   191,   191,    98,    39,
-     193,   193,    54,    15,   131,   193,    94,   197,   197,    55,
-      22,   125,     7,    93,   193,    27,   172,   193,   172,    58,
-      15,   194,   193,     3,   193,    37,     4,    22,    40,    41,
-       4,     4,    27,     3,     3,   193,   161,   172,   193,   101,
-      52,    53,    37,   193,    77,    40,    41,   193,   193,   101,
-      62,   193,   193,    65,   193,   116,   194,    52,    53,    94,
-     193,   191,   104,   192,   116,     3,   197,    62,    69,   121,
-      65,     3,    62,    54,   160,    87,   194,   129,     6,    91,
-       6,     6,     6,     6,   136,   137,   104,   193,   172,    11,
-       4,   194,    87,   194,    99,   107,    91,   194,     3,    78,
-      99,   113,    54,    25,   126,   194,    78,    29,    30,    31,
-      32,    33,   107,    35,    78,   194,   194,    54,   113,   194,
-     101,    43,   174,   175,   176,   177,   178,   194,   105,   181,
-     182,   194,   184,   185,   186,   187,   188,   189,     6,   191,
-     121,   173,   193,   155,   156,   157,    68,   194,   129,   101,
-     126,   116,   193,    70,    24,   136,   137,   194,   349,   453,
-     155,   156,   157,   399,    86,   495,    88,    89,   353,   127,
-     127,   339,   248,   360,   201,   584,   207,   129,   299,   583,
-     364,   103,   276,   264,   136,   137,   108,   548,   110,   104,
-      -1,    -1,   129,   174,   175,   176,   177,   178,   120,   136,
+     328,   329,   330,   201,   601,   499,   500,    98,    45,   207,
+     297,   298,    83,   256,    51,     0,   193,   193,    55,    81,
+       0,   308,   309,     3,   113,     0,   113,   131,   113,     9,
+     193,   127,   119,     0,   223,    72,     3,   193,   113,    76,
+     266,   197,   113,   266,    81,     0,    26,   127,     3,   165,
+       3,   113,   168,     0,   169,   170,   171,     0,     0,   165,
+     186,   527,   168,   193,   150,    45,     0,   209,    80,   154,
+     508,   158,   159,   360,     0,    55,   113,   196,   365,   366,
+      55,   518,   119,   196,   113,   331,    66,   505,    55,    69,
+     119,    71,    72,   193,   422,   193,    76,    72,    78,    79,
+      55,    81,    82,    83,   193,    72,   295,   194,   351,   196,
+     197,   196,    55,    55,   456,    95,    94,    72,   193,    99,
+     100,   196,   616,   410,   411,   196,   197,    62,   113,     3,
+      72,   568,   194,   113,   196,    90,    83,   335,   113,   119,
+     166,   167,   636,   192,   119,   125,   113,   116,   197,   347,
+       0,   131,   119,   338,   591,     3,   375,   194,   113,   196,
+     197,   116,   117,   132,   119,   194,   113,   196,     3,   116,
+     113,   113,   194,   116,   127,   197,   119,   132,   131,   113,
+     566,   567,    94,   620,   123,   132,   116,   113,   516,   132,
+     332,     0,     3,   119,   125,   162,   163,   164,    97,   134,
+     133,   265,   132,     0,   130,     0,   270,   162,   163,   164,
+       3,   196,   194,    24,   194,   197,   196,   197,     4,   194,
+     507,   196,   509,   510,   413,   194,   161,   194,   121,   196,
+     197,     0,   158,   159,     3,   424,   622,   172,    49,   194,
+       9,   196,   197,     3,     0,     0,    55,    93,    17,   196,
+     197,   194,   194,   196,   196,    46,   116,    26,    55,   193,
+       3,     3,   196,    72,   194,   125,   194,    76,   194,    92,
+     196,   109,   132,     0,   194,    72,    45,   559,   116,    76,
+       4,    24,    51,     0,   193,    54,    55,   574,    83,   112,
+     193,    92,   603,   104,   132,   118,     6,    66,   194,    12,
+      69,   197,    71,    72,   113,   194,    49,    76,   197,    78,
+      79,   112,    81,    82,    83,   193,   113,   118,   113,   166,
+     167,    90,   119,    92,    37,    94,    95,    83,    55,   518,
+      99,   100,   101,     0,   162,   163,   164,   624,    55,   626,
+     109,    54,   126,   112,   113,    72,    76,   116,   117,   118,
+     119,   493,   121,    17,    18,     4,   125,   113,   113,   128,
+     129,   104,   131,   132,   119,     4,   194,   136,   137,   138,
+     139,   140,   141,   142,   143,   144,   145,   146,   147,   148,
+     149,   109,     0,   163,   164,   194,   113,   196,   116,   194,
+     103,    46,   119,   162,   163,   164,   113,   194,   193,   196,
+     194,   196,   119,   197,   132,   174,   175,   176,   177,   178,
+     193,   194,   181,   182,   197,   184,   185,   186,   187,   188,
+     189,     0,   191,   192,     3,   194,   131,   196,   197,   116,
+       9,   118,   162,   163,   164,   162,   163,   164,    17,   194,
+     196,   196,   116,     3,   118,   132,   113,    26,   174,   116,
+     194,   112,   119,   197,     0,   116,   194,    76,   132,   197,
+     194,    46,    47,   197,   194,   132,    45,   194,    91,   196,
+     197,   132,    51,     3,     3,    54,    55,   194,   125,   196,
+     138,   139,   140,   141,   142,   143,   105,    66,   194,   193,
+      69,   197,    71,    72,   193,   113,   193,    76,   116,    78,
+      79,   119,    81,    82,    83,    76,   194,   191,    98,   197,
+     193,    90,    39,    92,   132,    94,    95,   193,   125,    93,
+      99,   100,   101,   194,   172,   194,   197,   194,   197,   196,
+     109,   172,   194,   112,   113,   197,   193,   116,   117,   118,
+     119,   193,   121,   162,   163,   164,   125,    58,    92,   128,
+     129,   194,   131,   132,   197,   193,   193,   136,   137,   138,
+     139,   140,   141,   142,   143,   194,   194,   113,   112,   197,
+     116,     3,   116,   119,   118,   194,   194,   194,   196,   194,
+     197,     4,   197,   162,   163,   164,   132,     4,   132,     4,
+      26,   162,   163,   164,     3,   174,   175,   176,   177,   178,
+     172,    92,   181,   182,   161,   184,   185,   186,   187,   188,
+     189,     0,   191,   192,     3,   194,   194,   196,   197,   197,
+       9,   112,    94,   194,   193,   116,   197,   118,    17,   193,
+      66,   193,   193,   101,   193,    71,   194,    26,   193,   104,
+     192,   132,    78,    79,     3,     3,    82,   197,   194,    62,
+     196,   160,   194,     6,     6,     6,    45,     6,     6,    95,
+     104,   193,    51,    99,   100,    54,    55,   172,   194,   104,
+     194,     4,   194,    99,    99,     3,   126,    66,   194,   194,
+      69,   194,    71,    72,   194,     6,   121,    76,   194,    78,
+      79,   194,    81,    82,    83,   131,   173,   126,   194,   193,
+       0,    90,   194,    92,   116,    94,    95,    70,    24,     9,
+      99,   100,   101,   349,   339,   248,   453,   399,   495,   207,
+     109,   201,   353,   112,   113,   360,   299,   116,   117,   118,
+     119,   127,   121,   127,   169,   170,   125,   364,   173,   128,
+     129,   584,   131,   132,   583,    45,   264,   136,   137,   548,
+     104,   276,    -1,    -1,    -1,    55,    -1,    -1,   193,   194,
+      -1,    -1,   197,    -1,    -1,    -1,     4,     5,     6,    69,
+       0,    -1,    72,   162,   163,   164,    76,    -1,    -1,     9,
+      -1,    81,    -1,    83,    -1,   174,   175,   176,   177,   178,
+      -1,    -1,   181,   182,    94,   184,   185,   186,   187,   188,
+     189,    -1,   191,   192,   193,   194,   195,   196,   197,     0,
+      48,    -1,     3,   113,    -1,    45,    -1,    -1,     9,   119,
+      -1,    -1,    -1,    -1,    -1,    55,    17,    -1,    -1,    -1,
+      -1,    -1,     4,     5,     6,    26,    -1,    -1,    -1,    69,
+      -1,    -1,    72,    -1,    -1,    -1,    76,    -1,    -1,    -1,
+      88,    81,    -1,    83,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,   104,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    48,    -1,    69,    -1,
+      71,    72,    -1,   113,    -1,    76,    77,    78,    79,   119,
+      81,    82,    83,    -1,   194,    -1,   196,   197,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,   150,   151,   152,    -1,    88,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,   104,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,   185,    -1,    -1,
+      -1,    -1,   104,    -1,    -1,    -1,   194,    -1,   104,    -1,
+     198,    -1,    -1,    -1,   194,   104,   196,    -1,    -1,   121,
+      -1,   162,   163,   164,    -1,   121,    -1,    -1,   150,   151,
+     152,    -1,   121,   174,   175,   176,   177,   178,    -1,    -1,
+     181,   182,    -1,   184,   185,   186,   187,   188,   189,     0,
+     191,   192,     3,   194,    -1,   196,   197,    -1,     9,    -1,
+      -1,    -1,    -1,   185,    -1,    -1,    17,   169,   170,    -1,
+      -1,   173,    -1,   169,   170,    26,   198,   173,    -1,     0,
+     169,   170,    -1,    -1,   173,    -1,    -1,    -1,     9,    -1,
+      -1,   193,   194,    -1,    45,   197,    -1,   193,   194,    -1,
+      51,   197,    -1,    54,    55,   194,   104,    -1,   197,     4,
+       5,     6,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,   121,    45,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    55,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    72,    -1,    -1,    -1,    76,    -1,    -1,   109,    -1,
+      81,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,   169,   170,    -1,   125,   173,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,   113,    88,    -1,    -1,   194,    -1,   119,   197,
+      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,   104,
+      -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   174,   175,   176,   177,   178,    -1,    -1,
      181,   182,    -1,   184,   185,   186,   187,   188,   189,    -1,
-     191,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   174,   175,   176,   177,   178,    -1,    -1,   181,
-     182,   153,   184,   185,   186,   187,   188,   189,    -1,   191,
+     191,   192,   193,   194,     0,   196,   197,     3,    -1,    -1,
+      45,    -1,    -1,     9,    -1,   150,   151,   152,    -1,    -1,
+      55,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,   194,    69,   196,    -1,    72,    -1,    -1,
+      -1,    76,    -1,    -1,    -1,    -1,    81,    -1,    -1,    45,
+     185,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,   198,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,   113,    -1,
+      76,   116,    78,    79,   119,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,   132,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   194,
+      -1,   196,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    45,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    55,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    72,    -1,    -1,    -1,
+      76,    -1,    -1,   109,    -1,    81,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,
+      -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,
+     196,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
+     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,     0,    -1,    -1,     3,    -1,   162,   163,   164,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    26,   184,   185,
+     186,   187,   188,   189,    -1,   191,   192,    -1,   194,    -1,
+     196,   197,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,    -1,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   174,   175,   176,   177,   178,
+      -1,    -1,   181,   182,    -1,   184,   185,   186,   187,   188,
+     189,     0,   191,   192,     3,   194,    -1,   196,   197,    -1,
+       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,
+       3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,   174,   175,   176,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,   184,   185,   186,   187,   188,
+     189,    -1,   191,   192,    -1,   194,    -1,   196,   197,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,
+     163,   164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      17,   174,   175,   176,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,   184,   185,   186,   187,   188,   189,    -1,   191,   192,
+      -1,   194,    -1,   196,   197,    -1,    -1,    -1,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    17,   174,   175,   176,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,   184,   185,   186,
+     187,   188,   189,    -1,   191,   192,    -1,   194,    -1,   196,
+     197,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,
+      -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    17,   174,   175,   176,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,   184,   185,   186,   187,   188,   189,    -1,
+     191,   192,    -1,   194,    -1,   196,   197,    -1,    -1,    -1,
+      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
+      -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
+      -1,    -1,     9,    -1,    -1,    -1,    -1,   162,   163,   164,
+      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,   177,   178,    -1,    -1,   181,   182,    -1,   184,
+     185,   186,   187,   188,   189,    -1,   191,   192,    45,   194,
+      -1,   196,   197,    -1,    51,    -1,    -1,    54,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
+     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
+      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
+       9,    -1,    -1,    -1,    -1,   162,   163,   164,    17,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
      177,   178,    -1,    -1,   181,   182,    -1,   184,   185,   186,
-     187,   188,   189,    -1,   191,   138,   139,   140,   141,   142,
-     143,   144,   145,   146,   147,   148,   149
+     187,   188,   189,    -1,   191,   192,    45,   194,    -1,   196,
+     197,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
+     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
+     129,    -1,   131,   132,    -1,    -1,    -1,   136,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
+      -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,
+      -1,    -1,    -1,   162,   163,   164,    17,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   177,   178,
+      -1,    -1,   181,   182,    -1,   184,   185,   186,   187,   188,
+     189,    -1,   191,   192,    45,   194,    -1,   196,   197,    -1,
+      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
+      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
+     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
+     131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,
+       3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,
+      -1,   162,   163,   164,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,   177,   178,    -1,    -1,
+     181,   182,    -1,   184,   185,   186,   187,   188,   189,    -1,
+     191,   192,    45,   194,    -1,   196,   197,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,
+      -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,   162,
+     163,   164,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    26,    -1,    -1,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,    -1,   191,   192,
+      45,   194,    -1,   196,   197,    -1,    51,    -1,    -1,    54,
+      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
+      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
+      -1,    -1,    -1,    -1,     0,    90,    -1,    92,    -1,    94,
+      95,    -1,    -1,     9,    99,   100,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
+      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
+     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    45,
+      -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
+      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
+      -1,    -1,     9,    69,    -1,    -1,    72,   162,   163,   164,
+      76,    -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    26,
+      -1,    -1,   177,   178,    -1,    -1,   181,   182,    94,   184,
+     185,   186,   187,   188,   189,    -1,   191,   192,    45,   194,
+      -1,   196,   197,    -1,    51,    -1,    -1,   113,    55,    -1,
+      -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    66,
+      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
+      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,    -1,   109,    -1,    -1,   112,   113,     9,    -1,   116,
+     117,   118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,
+      -1,    -1,    -1,    -1,   131,   132,     0,    -1,   194,     3,
+     196,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    55,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      72,    45,    -1,    -1,    76,    -1,    -1,    51,    -1,    81,
+      -1,    55,    -1,    -1,    -1,   192,    -1,   194,    -1,   196,
+     197,     0,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+       9,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,   113,    -1,    -1,   116,    -1,    90,   119,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,
+     132,    -1,    -1,    -1,    -1,   109,    45,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    55,    -1,    -1,    -1,
+      -1,   125,    -1,    -1,    -1,    -1,    -1,   131,   132,    -1,
+      69,     0,    -1,    72,     3,    -1,    -1,    76,    -1,    -1,
+       9,    -1,    81,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,   162,   163,
+     164,    -1,   194,    -1,   196,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,    45,    -1,    -1,    -1,
+     119,    -1,    -1,    -1,    -1,    -1,    55,    -1,   192,    58,
+     194,    -1,   196,   197,    63,    -1,    -1,    66,    -1,    -1,
+      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
+      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    91,    -1,    -1,    94,    95,    -1,    -1,    -1,
+      99,   100,    -1,    -1,    -1,   104,    -1,     0,    -1,    -1,
+      -1,    -1,    -1,    -1,   113,    -1,     9,    -1,    -1,    -1,
+     119,    -1,   121,    -1,   123,   194,   125,   196,    -1,    -1,
+      -1,    -1,   131,    26,   133,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     169,   170,    26,    66,   173,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    45,    -1,    -1,   193,   194,   195,   196,   197,    -1,
+      -1,    55,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+     113,    -1,    76,   116,    78,    79,   119,    81,    82,    83,
+      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,   131,   132,
+      -1,    95,     9,    -1,    -1,    99,   100,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,
+      -1,    -1,    -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   131,    45,    -1,
+      -1,    -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   194,    69,   196,   197,    72,    -1,    -1,    -1,    76,
+      -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,    -1,    -1,    94,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   193,
+     194,    -1,   196,   197,    -1,    -1,   113,    -1,    26,   116,
+      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,
+      -1,    -1,    -1,    -1,    -1,   132,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,     0,    -1,    -1,    -1,    55,    -1,    -1,
+      -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,   162,   163,   164,    76,    26,
+      78,    79,    -1,    81,    -1,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    45,    -1,
+      -1,    99,   100,    -1,    -1,   192,    -1,   194,    55,   196,
+     197,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    66,
+      -1,   119,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
+      -1,    78,    79,    -1,    81,    -1,    83,     3,     4,     5,
+       6,    -1,    -1,    -1,    -1,    -1,    12,    -1,    95,    -1,
+      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,     3,     4,
+       5,     6,    -1,    -1,    -1,    -1,   113,    12,    -1,    -1,
+      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      46,    47,    48,    -1,    -1,    -1,     3,     4,     5,     6,
+      -1,    -1,    -1,    -1,    -1,    12,   194,    -1,   196,   197,
+      -1,    46,    47,    48,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,
+      -1,    -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,    46,
+      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,   104,    -1,
+      85,    -1,    -1,    88,    -1,    -1,    -1,   194,    -1,   196,
+     197,    -1,    -1,    -1,    -1,   121,    -1,    -1,   124,   104,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,   135,
+      -1,    88,     3,     4,     5,     6,   121,    -1,    -1,    -1,
+      -1,    12,    -1,    -1,   150,   151,   152,   104,    -1,    -1,
+     135,    -1,    -1,     3,     4,     5,     6,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   121,   150,   151,   152,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    46,    47,    48,   135,   185,
+     186,     3,     4,     5,     6,    -1,    -1,   193,    -1,    -1,
+      -1,    -1,   198,   150,   151,   152,    46,    47,    48,    -1,
+     185,   186,     3,     4,     5,     6,    -1,    -1,   193,   194,
+      -1,    -1,    -1,   198,    85,    -1,    -1,    88,    -1,    -1,
+      -1,    -1,    -1,    -1,    46,    47,    48,    -1,   185,   186,
+      -1,    -1,    -1,   104,    -1,    85,   193,   194,    88,    -1,
+      -1,   198,    -1,    -1,    -1,    46,    47,    48,    -1,    -1,
+     121,    -1,    -1,    -1,   104,    -1,    -1,    58,    -1,    -1,
+      -1,    -1,    -1,    85,   135,   115,    88,    -1,    -1,    -1,
+      -1,   121,    -1,     3,     4,     5,     6,    -1,    -1,   150,
+     151,   152,   104,    -1,    85,   135,    -1,    88,    -1,    -1,
+     112,    -1,    -1,    -1,    -1,     3,     4,     5,     6,   121,
+     150,   151,   152,   104,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   135,   185,   186,    46,    47,    48,    -1,
+     121,    -1,   193,    -1,    -1,    -1,    -1,   198,   150,   151,
+     152,    -1,    -1,    -1,   135,   185,   186,    -1,    46,    47,
+      48,    -1,    -1,   193,     3,     4,     5,     6,   198,   150,
+     151,   152,    -1,    -1,    -1,    85,    -1,    -1,    88,    -1,
+      -1,    -1,    -1,   185,   186,    -1,    -1,    -1,    -1,    -1,
+      -1,   193,    -1,    -1,   104,    -1,   198,    85,    -1,    -1,
+      88,    -1,    -1,    -1,   185,   186,    -1,    -1,    47,    48,
+      -1,   121,   193,    -1,    -1,    -1,   104,   198,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,
+     150,   151,   152,    -1,    -1,    -1,    85,   135,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   150,   151,   152,   104,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   185,   186,     0,    -1,    -1,
+      -1,    -1,   121,   193,     7,    -1,    -1,    -1,   198,    -1,
+      -1,    -1,    15,    -1,    -1,    -1,   135,   185,   186,    22,
+      -1,    -1,    -1,    -1,    27,   193,    -1,     7,    -1,    -1,
+     198,   150,   151,   152,    37,    15,    -1,    40,    41,    -1,
+      -1,    -1,    22,    -1,    -1,    -1,    -1,    27,    -1,    52,
+      53,    -1,    -1,    -1,    -1,    58,    -1,    37,    -1,    62,
+      40,    41,    65,    -1,    -1,    -1,   185,   186,    -1,    -1,
+      -1,    -1,    52,    53,   193,    -1,    -1,    -1,    58,   198,
+      -1,    -1,    62,    -1,    87,    65,    -1,    -1,    91,    -1,
+      -1,    -1,    -1,    -1,    11,    -1,    -1,    -1,    54,    -1,
+      -1,    -1,    -1,    -1,   107,    -1,    -1,    87,    25,    -1,
+     113,    91,    29,    30,    31,    32,    33,    -1,    35,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    43,   107,    -1,    -1,
+      -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   101,    -1,    -1,    -1,    -1,
+      -1,    68,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,
+     116,    -1,    -1,    -1,    -1,   121,    -1,    -1,    -1,    86,
+      -1,    88,    89,   129,    -1,   155,   156,   157,    -1,    -1,
+     136,   137,    -1,    -1,    -1,    -1,   103,    -1,    -1,    -1,
+     193,   108,    -1,   110,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   193,    -1,    -1,    -1,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,    -1,   191,   153
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
@@ -2090,31 +3184,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 194 "bison_parser.y"
+#line 198 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2096 "bison_parser.cpp"
+#line 3190 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 194 "bison_parser.y"
+#line 198 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2102 "bison_parser.cpp"
+#line 3196 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2108 "bison_parser.cpp"
+#line 3202 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2114 "bison_parser.cpp"
+#line 3208 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -2123,23 +3217,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 2127 "bison_parser.cpp"
+#line 3221 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 2133 "bison_parser.cpp"
+#line 3227 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 2139 "bison_parser.cpp"
+#line 3233 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2148,11 +3242,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2152 "bison_parser.cpp"
+#line 3246 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2161,104 +3255,104 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2165 "bison_parser.cpp"
+#line 3259 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2171 "bison_parser.cpp"
+#line 3265 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 2177 "bison_parser.cpp"
+#line 3271 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 2183 "bison_parser.cpp"
+#line 3277 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 194 "bison_parser.y"
+#line 198 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2189 "bison_parser.cpp"
+#line 3283 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 2195 "bison_parser.cpp"
+#line 3289 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 2201 "bison_parser.cpp"
+#line 3295 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2207 "bison_parser.cpp"
+#line 3301 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 194 "bison_parser.y"
+#line 198 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2213 "bison_parser.cpp"
+#line 3307 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 2219 "bison_parser.cpp"
+#line 3313 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 2225 "bison_parser.cpp"
+#line 3319 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 247 "bison_parser.y"
+#line 251 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 2234 "bison_parser.cpp"
+#line 3328 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 2240 "bison_parser.cpp"
+#line 3334 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 2246 "bison_parser.cpp"
+#line 3340 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 2252 "bison_parser.cpp"
+#line 3346 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2258 "bison_parser.cpp"
+#line 3352 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -2267,41 +3361,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 2271 "bison_parser.cpp"
+#line 3365 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 2277 "bison_parser.cpp"
+#line 3371 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 2283 "bison_parser.cpp"
+#line 3377 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2289 "bison_parser.cpp"
+#line 3383 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2295 "bison_parser.cpp"
+#line 3389 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 2301 "bison_parser.cpp"
+#line 3395 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 239 "bison_parser.y"
+#line 243 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -2310,11 +3404,11 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 2314 "bison_parser.cpp"
+#line 3408 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 239 "bison_parser.y"
+#line 243 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -2323,77 +3417,77 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 2327 "bison_parser.cpp"
+#line 3421 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2333 "bison_parser.cpp"
+#line 3427 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 2339 "bison_parser.cpp"
+#line 3433 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 2345 "bison_parser.cpp"
+#line 3439 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 2351 "bison_parser.cpp"
+#line 3445 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2357 "bison_parser.cpp"
+#line 3451 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 2363 "bison_parser.cpp"
+#line 3457 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 2369 "bison_parser.cpp"
+#line 3463 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 2375 "bison_parser.cpp"
+#line 3469 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 2381 "bison_parser.cpp"
+#line 3475 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 2387 "bison_parser.cpp"
+#line 3481 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 2393 "bison_parser.cpp"
+#line 3487 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 186 "bison_parser.y"
+#line 190 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -2402,17 +3496,17 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 2406 "bison_parser.cpp"
+#line 3500 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 2412 "bison_parser.cpp"
+#line 3506 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 208 "bison_parser.y"
+#line 212 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).update_vec))) {
     free(ptr->column);
@@ -2421,81 +3515,81 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 2425 "bison_parser.cpp"
+#line 3519 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 203 "bison_parser.y"
+#line 207 "bison_parser.y"
             {
   free(((*yyvaluep).update_t)->column);
   delete ((*yyvaluep).update_t)->value;
   delete (((*yyvaluep).update_t));
 }
-#line 2435 "bison_parser.cpp"
+#line 3529 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2441 "bison_parser.cpp"
+#line 3535 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2447 "bison_parser.cpp"
+#line 3541 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2453 "bison_parser.cpp"
+#line 3547 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2459 "bison_parser.cpp"
+#line 3553 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2465 "bison_parser.cpp"
+#line 3559 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 2471 "bison_parser.cpp"
+#line 3565 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 2477 "bison_parser.cpp"
+#line 3571 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2483 "bison_parser.cpp"
+#line 3577 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 2489 "bison_parser.cpp"
+#line 3583 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2495 "bison_parser.cpp"
+#line 3589 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2504,41 +3598,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2508 "bison_parser.cpp"
+#line 3602 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2514 "bison_parser.cpp"
+#line 3608 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2520 "bison_parser.cpp"
+#line 3614 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2526 "bison_parser.cpp"
+#line 3620 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 2532 "bison_parser.cpp"
+#line 3626 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2538 "bison_parser.cpp"
+#line 3632 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -2547,11 +3641,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2551 "bison_parser.cpp"
+#line 3645 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -2560,41 +3654,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 2564 "bison_parser.cpp"
+#line 3658 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 2570 "bison_parser.cpp"
+#line 3664 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2576 "bison_parser.cpp"
+#line 3670 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2582 "bison_parser.cpp"
+#line 3676 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 2588 "bison_parser.cpp"
+#line 3682 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 2594 "bison_parser.cpp"
+#line 3688 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2603,11 +3697,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2607 "bison_parser.cpp"
+#line 3701 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2616,11 +3710,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2620 "bison_parser.cpp"
+#line 3714 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2629,107 +3723,107 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2633 "bison_parser.cpp"
+#line 3727 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2639 "bison_parser.cpp"
+#line 3733 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2645 "bison_parser.cpp"
+#line 3739 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2651 "bison_parser.cpp"
+#line 3745 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2657 "bison_parser.cpp"
+#line 3751 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2663 "bison_parser.cpp"
+#line 3757 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2669 "bison_parser.cpp"
+#line 3763 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2675 "bison_parser.cpp"
+#line 3769 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2681 "bison_parser.cpp"
+#line 3775 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2687 "bison_parser.cpp"
+#line 3781 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2693 "bison_parser.cpp"
+#line 3787 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2699 "bison_parser.cpp"
+#line 3793 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2705 "bison_parser.cpp"
+#line 3799 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2711 "bison_parser.cpp"
+#line 3805 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2717 "bison_parser.cpp"
+#line 3811 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2723 "bison_parser.cpp"
+#line 3817 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 2729 "bison_parser.cpp"
+#line 3823 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -2738,155 +3832,155 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 2742 "bison_parser.cpp"
+#line 3836 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 2748 "bison_parser.cpp"
+#line 3842 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2754 "bison_parser.cpp"
+#line 3848 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 2760 "bison_parser.cpp"
+#line 3854 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2766 "bison_parser.cpp"
+#line 3860 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2772 "bison_parser.cpp"
+#line 3866 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2778 "bison_parser.cpp"
+#line 3872 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2784 "bison_parser.cpp"
+#line 3878 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 2790 "bison_parser.cpp"
+#line 3884 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2796 "bison_parser.cpp"
+#line 3890 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2802 "bison_parser.cpp"
+#line 3896 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2808 "bison_parser.cpp"
+#line 3902 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2814 "bison_parser.cpp"
+#line 3908 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2820 "bison_parser.cpp"
+#line 3914 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2826 "bison_parser.cpp"
+#line 3920 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2832 "bison_parser.cpp"
+#line 3926 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2838 "bison_parser.cpp"
+#line 3932 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2844 "bison_parser.cpp"
+#line 3938 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2850 "bison_parser.cpp"
+#line 3944 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2856 "bison_parser.cpp"
+#line 3950 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2862 "bison_parser.cpp"
+#line 3956 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 2868 "bison_parser.cpp"
+#line 3962 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2874 "bison_parser.cpp"
+#line 3968 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2880 "bison_parser.cpp"
+#line 3974 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2886 "bison_parser.cpp"
+#line 3980 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -2895,62 +3989,62 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 2899 "bison_parser.cpp"
+#line 3993 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2905 "bison_parser.cpp"
+#line 3999 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 2911 "bison_parser.cpp"
+#line 4005 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 182 "bison_parser.y"
+#line 186 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 2920 "bison_parser.cpp"
+#line 4014 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 194 "bison_parser.y"
+#line 198 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 2926 "bison_parser.cpp"
+#line 4020 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2932 "bison_parser.cpp"
+#line 4026 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2938 "bison_parser.cpp"
+#line 4032 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2944 "bison_parser.cpp"
+#line 4038 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 2950 "bison_parser.cpp"
+#line 4044 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 225 "bison_parser.y"
+#line 229 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -2965,11 +4059,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 2969 "bison_parser.cpp"
+#line 4063 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 225 "bison_parser.y"
+#line 229 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -2984,11 +4078,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 2988 "bison_parser.cpp"
+#line 4082 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 216 "bison_parser.y"
+#line 220 "bison_parser.y"
             {
   if (((*yyvaluep).locking_t)->tables) {
     for (auto ptr : *(((*yyvaluep).locking_t)->tables)) {
@@ -2998,23 +4092,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_t));
 }
-#line 3002 "bison_parser.cpp"
+#line 4096 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 3008 "bison_parser.cpp"
+#line 4102 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 3014 "bison_parser.cpp"
+#line 4108 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -3023,11 +4117,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 3027 "bison_parser.cpp"
+#line 4121 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -3036,11 +4130,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 3040 "bison_parser.cpp"
+#line 4134 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 195 "bison_parser.y"
+#line 199 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -3049,35 +4143,35 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 3053 "bison_parser.cpp"
+#line 4147 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 3059 "bison_parser.cpp"
+#line 4153 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3065 "bison_parser.cpp"
+#line 4159 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 181 "bison_parser.y"
+#line 185 "bison_parser.y"
             { }
-#line 3071 "bison_parser.cpp"
+#line 4165 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 251 "bison_parser.y"
+#line 255 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3077 "bison_parser.cpp"
+#line 4171 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 186 "bison_parser.y"
+#line 190 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -3086,7 +4180,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3090 "bison_parser.cpp"
+#line 4184 "bison_parser.cpp"
         break;
 
       default:
@@ -3183,7 +4277,7 @@ YYLTYPE yylloc = yyloc_default;
 
 
 /* User initialization code.  */
-#line 81 "bison_parser.y"
+#line 85 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -3194,7 +4288,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.string_length = 0;
 }
 
-#line 3198 "bison_parser.cpp"
+#line 4292 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -3405,7 +4499,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 387 "bison_parser.y"
+#line 391 "bison_parser.y"
                                      {
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
@@ -3423,236 +4517,236 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 3427 "bison_parser.cpp"
+#line 4521 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 406 "bison_parser.y"
+#line 410 "bison_parser.y"
                            {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 3438 "bison_parser.cpp"
+#line 4532 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 412 "bison_parser.y"
+#line 416 "bison_parser.y"
                                {
   (yyvsp[0].statement)->stringLength = yylloc.string_length;
   yylloc.string_length = 0;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 3449 "bison_parser.cpp"
+#line 4543 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 419 "bison_parser.y"
+#line 423 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3458 "bison_parser.cpp"
+#line 4552 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 423 "bison_parser.y"
+#line 427 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 3467 "bison_parser.cpp"
+#line 4561 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 427 "bison_parser.y"
+#line 431 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 3473 "bison_parser.cpp"
+#line 4567 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 428 "bison_parser.y"
+#line 432 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 3479 "bison_parser.cpp"
+#line 4573 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 429 "bison_parser.y"
+#line 433 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 3485 "bison_parser.cpp"
+#line 4579 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 431 "bison_parser.y"
+#line 435 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 3491 "bison_parser.cpp"
+#line 4585 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 432 "bison_parser.y"
+#line 436 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 3497 "bison_parser.cpp"
+#line 4591 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 433 "bison_parser.y"
+#line 437 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 3503 "bison_parser.cpp"
+#line 4597 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 434 "bison_parser.y"
+#line 438 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3509 "bison_parser.cpp"
+#line 4603 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 435 "bison_parser.y"
+#line 439 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 3515 "bison_parser.cpp"
+#line 4609 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 436 "bison_parser.y"
+#line 440 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 3521 "bison_parser.cpp"
+#line 4615 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 437 "bison_parser.y"
+#line 441 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 3527 "bison_parser.cpp"
+#line 4621 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 438 "bison_parser.y"
+#line 442 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 3533 "bison_parser.cpp"
+#line 4627 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 439 "bison_parser.y"
+#line 443 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 3539 "bison_parser.cpp"
+#line 4633 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 440 "bison_parser.y"
+#line 444 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 3545 "bison_parser.cpp"
+#line 4639 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 446 "bison_parser.y"
+#line 450 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 3551 "bison_parser.cpp"
+#line 4645 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 447 "bison_parser.y"
+#line 451 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 3557 "bison_parser.cpp"
+#line 4651 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 449 "bison_parser.y"
+#line 453 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 3566 "bison_parser.cpp"
+#line 4660 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 453 "bison_parser.y"
+#line 457 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 3575 "bison_parser.cpp"
+#line 4669 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 458 "bison_parser.y"
+#line 462 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 3584 "bison_parser.cpp"
+#line 4678 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 462 "bison_parser.y"
+#line 466 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 3594 "bison_parser.cpp"
+#line 4688 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 472 "bison_parser.y"
+#line 476 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 3600 "bison_parser.cpp"
+#line 4694 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 473 "bison_parser.y"
+#line 477 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 3606 "bison_parser.cpp"
+#line 4700 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 474 "bison_parser.y"
+#line 478 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 3612 "bison_parser.cpp"
+#line 4706 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 482 "bison_parser.y"
+#line 486 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 3622 "bison_parser.cpp"
+#line 4716 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 490 "bison_parser.y"
+#line 494 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 3631 "bison_parser.cpp"
+#line 4725 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 494 "bison_parser.y"
+#line 498 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 3641 "bison_parser.cpp"
+#line 4735 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 506 "bison_parser.y"
+#line 510 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 3652 "bison_parser.cpp"
+#line 4746 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 512 "bison_parser.y"
+#line 516 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -3669,11 +4763,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 3673 "bison_parser.cpp"
+#line 4767 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 529 "bison_parser.y"
+#line 533 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -3688,35 +4782,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 3692 "bison_parser.cpp"
+#line 4786 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 544 "bison_parser.y"
+#line 548 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 3698 "bison_parser.cpp"
+#line 4792 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 546 "bison_parser.y"
+#line 550 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3704 "bison_parser.cpp"
+#line 4798 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 547 "bison_parser.y"
+#line 551 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 3710 "bison_parser.cpp"
+#line 4804 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 548 "bison_parser.y"
+#line 552 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 3716 "bison_parser.cpp"
+#line 4810 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 550 "bison_parser.y"
+#line 554 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -3731,20 +4825,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3735 "bison_parser.cpp"
+#line 4829 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 564 "bison_parser.y"
+#line 568 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 3744 "bison_parser.cpp"
+#line 4838 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 568 "bison_parser.y"
+#line 572 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -3755,20 +4849,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 3759 "bison_parser.cpp"
+#line 4853 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 578 "bison_parser.y"
+#line 582 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 3768 "bison_parser.cpp"
+#line 4862 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 582 "bison_parser.y"
+#line 586 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -3793,11 +4887,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 3797 "bison_parser.cpp"
+#line 4891 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 606 "bison_parser.y"
+#line 610 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -3805,11 +4899,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 3809 "bison_parser.cpp"
+#line 4903 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 614 "bison_parser.y"
+#line 618 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -3823,17 +4917,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 3827 "bison_parser.cpp"
+#line 4921 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 627 "bison_parser.y"
+#line 631 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 3833 "bison_parser.cpp"
+#line 4927 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 634 "bison_parser.y"
+#line 638 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -3849,11 +4943,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3853 "bison_parser.cpp"
+#line 4947 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 649 "bison_parser.y"
+#line 653 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -3868,37 +4962,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 3872 "bison_parser.cpp"
+#line 4966 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 669 "bison_parser.y"
+#line 673 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 3878 "bison_parser.cpp"
+#line 4972 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 670 "bison_parser.y"
+#line 674 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3888 "bison_parser.cpp"
+#line 4982 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 675 "bison_parser.y"
+#line 679 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 3898 "bison_parser.cpp"
+#line 4992 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 686 "bison_parser.y"
+#line 690 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
@@ -3914,11 +5008,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 3918 "bison_parser.cpp"
+#line 5012 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 701 "bison_parser.y"
+#line 705 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3931,11 +5025,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 3935 "bison_parser.cpp"
+#line 5029 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 713 "bison_parser.y"
+#line 717 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -3943,11 +5037,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3947 "bison_parser.cpp"
+#line 5041 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 720 "bison_parser.y"
+#line 724 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -3956,11 +5050,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 3960 "bison_parser.cpp"
+#line 5054 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 728 "bison_parser.y"
+#line 732 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -3969,53 +5063,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 3973 "bison_parser.cpp"
+#line 5067 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 737 "bison_parser.y"
+#line 741 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 3979 "bison_parser.cpp"
+#line 5073 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 738 "bison_parser.y"
+#line 742 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 3985 "bison_parser.cpp"
+#line 5079 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 740 "bison_parser.y"
+#line 744 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 3994 "bison_parser.cpp"
+#line 5088 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 744 "bison_parser.y"
+#line 748 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 4003 "bison_parser.cpp"
+#line 5097 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 749 "bison_parser.y"
+#line 753 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 4009 "bison_parser.cpp"
+#line 5103 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 750 "bison_parser.y"
+#line 754 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 4015 "bison_parser.cpp"
+#line 5109 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 752 "bison_parser.y"
+#line 756 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -4023,192 +5117,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 4027 "bison_parser.cpp"
+#line 5121 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 760 "bison_parser.y"
+#line 764 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 4033 "bison_parser.cpp"
+#line 5127 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 761 "bison_parser.y"
+#line 765 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 4039 "bison_parser.cpp"
+#line 5133 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 762 "bison_parser.y"
+#line 766 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 4045 "bison_parser.cpp"
+#line 5139 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 763 "bison_parser.y"
+#line 767 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4051 "bison_parser.cpp"
+#line 5145 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 764 "bison_parser.y"
+#line 768 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 4057 "bison_parser.cpp"
+#line 5151 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 765 "bison_parser.y"
+#line 769 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4063 "bison_parser.cpp"
+#line 5157 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 766 "bison_parser.y"
+#line 770 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 4072 "bison_parser.cpp"
+#line 5166 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 770 "bison_parser.y"
+#line 774 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 4078 "bison_parser.cpp"
+#line 5172 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 771 "bison_parser.y"
+#line 775 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 4084 "bison_parser.cpp"
+#line 5178 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 772 "bison_parser.y"
+#line 776 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4090 "bison_parser.cpp"
+#line 5184 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 773 "bison_parser.y"
+#line 777 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 4096 "bison_parser.cpp"
+#line 5190 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 774 "bison_parser.y"
+#line 778 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 4102 "bison_parser.cpp"
+#line 5196 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 775 "bison_parser.y"
+#line 779 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 4108 "bison_parser.cpp"
+#line 5202 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 776 "bison_parser.y"
+#line 780 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 4114 "bison_parser.cpp"
+#line 5208 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 777 "bison_parser.y"
+#line 781 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 4120 "bison_parser.cpp"
+#line 5214 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 778 "bison_parser.y"
+#line 782 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 4126 "bison_parser.cpp"
+#line 5220 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 779 "bison_parser.y"
+#line 783 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 4132 "bison_parser.cpp"
+#line 5226 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 780 "bison_parser.y"
+#line 784 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 4138 "bison_parser.cpp"
+#line 5232 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 782 "bison_parser.y"
+#line 786 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 4144 "bison_parser.cpp"
+#line 5238 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 783 "bison_parser.y"
+#line 787 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 4150 "bison_parser.cpp"
+#line 5244 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 785 "bison_parser.y"
+#line 789 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 4156 "bison_parser.cpp"
+#line 5250 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 786 "bison_parser.y"
+#line 790 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 4162 "bison_parser.cpp"
+#line 5256 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 787 "bison_parser.y"
+#line 791 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 4168 "bison_parser.cpp"
+#line 5262 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 789 "bison_parser.y"
+#line 793 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 4174 "bison_parser.cpp"
+#line 5268 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 790 "bison_parser.y"
+#line 794 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 4180 "bison_parser.cpp"
+#line 5274 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 792 "bison_parser.y"
+#line 796 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 4189 "bison_parser.cpp"
+#line 5283 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 796 "bison_parser.y"
+#line 800 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4198 "bison_parser.cpp"
+#line 5292 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 800 "bison_parser.y"
+#line 804 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 4208 "bison_parser.cpp"
+#line 5302 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 805 "bison_parser.y"
+#line 809 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -4216,159 +5310,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 4220 "bison_parser.cpp"
+#line 5314 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 813 "bison_parser.y"
+#line 817 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 4226 "bison_parser.cpp"
+#line 5320 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 814 "bison_parser.y"
+#line 818 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 4232 "bison_parser.cpp"
+#line 5326 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 815 "bison_parser.y"
+#line 819 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 4238 "bison_parser.cpp"
+#line 5332 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 816 "bison_parser.y"
+#line 820 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 4244 "bison_parser.cpp"
+#line 5338 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 818 "bison_parser.y"
+#line 822 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 4250 "bison_parser.cpp"
+#line 5344 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 819 "bison_parser.y"
+#line 823 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 4256 "bison_parser.cpp"
+#line 5350 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 820 "bison_parser.y"
+#line 824 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 4262 "bison_parser.cpp"
+#line 5356 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 822 "bison_parser.y"
+#line 826 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 4268 "bison_parser.cpp"
+#line 5362 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 830 "bison_parser.y"
+#line 834 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4279 "bison_parser.cpp"
+#line 5373 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 836 "bison_parser.y"
+#line 840 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4290 "bison_parser.cpp"
+#line 5384 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 842 "bison_parser.y"
+#line 846 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 4300 "bison_parser.cpp"
+#line 5394 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 848 "bison_parser.y"
+#line 852 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 4310 "bison_parser.cpp"
+#line 5404 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 854 "bison_parser.y"
+#line 858 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 4316 "bison_parser.cpp"
+#line 5410 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 855 "bison_parser.y"
+#line 859 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4322 "bison_parser.cpp"
+#line 5416 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 862 "bison_parser.y"
+#line 866 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 4332 "bison_parser.cpp"
+#line 5426 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 868 "bison_parser.y"
+#line 872 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 4338 "bison_parser.cpp"
+#line 5432 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 870 "bison_parser.y"
+#line 874 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 4347 "bison_parser.cpp"
+#line 5441 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 880 "bison_parser.y"
+#line 884 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 4358 "bison_parser.cpp"
+#line 5452 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 887 "bison_parser.y"
+#line 891 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4368 "bison_parser.cpp"
+#line 5462 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 898 "bison_parser.y"
+#line 902 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -4376,11 +5470,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 4380 "bison_parser.cpp"
+#line 5474 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 905 "bison_parser.y"
+#line 909 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -4388,80 +5482,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 4392 "bison_parser.cpp"
+#line 5486 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 913 "bison_parser.y"
+#line 917 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 4398 "bison_parser.cpp"
+#line 5492 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 914 "bison_parser.y"
+#line 918 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 4404 "bison_parser.cpp"
+#line 5498 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 921 "bison_parser.y"
+#line 925 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 4415 "bison_parser.cpp"
+#line 5509 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 928 "bison_parser.y"
+#line 932 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 4424 "bison_parser.cpp"
+#line 5518 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 932 "bison_parser.y"
+#line 936 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 4433 "bison_parser.cpp"
+#line 5527 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 937 "bison_parser.y"
+#line 941 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 4443 "bison_parser.cpp"
+#line 5537 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 947 "bison_parser.y"
+#line 951 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4452 "bison_parser.cpp"
+#line 5546 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 951 "bison_parser.y"
+#line 955 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 4461 "bison_parser.cpp"
+#line 5555 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 955 "bison_parser.y"
+#line 959 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4473,17 +5567,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 4477 "bison_parser.cpp"
+#line 5571 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 969 "bison_parser.y"
+#line 973 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 4483 "bison_parser.cpp"
+#line 5577 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 970 "bison_parser.y"
+#line 974 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4492,23 +5586,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 4496 "bison_parser.cpp"
+#line 5590 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 979 "bison_parser.y"
+#line 983 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4502 "bison_parser.cpp"
+#line 5596 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 980 "bison_parser.y"
+#line 984 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 4508 "bison_parser.cpp"
+#line 5602 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 982 "bison_parser.y"
+#line 986 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -4523,11 +5617,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 4527 "bison_parser.cpp"
+#line 5621 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 996 "bison_parser.y"
+#line 1000 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -4539,59 +5633,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 4543 "bison_parser.cpp"
+#line 5637 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 1008 "bison_parser.y"
+#line 1012 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 4552 "bison_parser.cpp"
+#line 5646 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 1013 "bison_parser.y"
+#line 1017 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 4561 "bison_parser.cpp"
+#line 5655 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 1017 "bison_parser.y"
+#line 1021 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 4570 "bison_parser.cpp"
+#line 5664 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 1021 "bison_parser.y"
+#line 1025 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 4579 "bison_parser.cpp"
+#line 5673 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 1026 "bison_parser.y"
+#line 1030 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 4585 "bison_parser.cpp"
+#line 5679 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 1027 "bison_parser.y"
+#line 1031 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4591 "bison_parser.cpp"
+#line 5685 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 1029 "bison_parser.y"
+#line 1033 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -4601,141 +5695,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 4605 "bison_parser.cpp"
+#line 5699 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1039 "bison_parser.y"
+#line 1043 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 4611 "bison_parser.cpp"
+#line 5705 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1040 "bison_parser.y"
+#line 1044 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 4617 "bison_parser.cpp"
+#line 5711 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1044 "bison_parser.y"
+#line 1048 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 4623 "bison_parser.cpp"
+#line 5717 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1045 "bison_parser.y"
+#line 1049 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 4629 "bison_parser.cpp"
+#line 5723 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1047 "bison_parser.y"
+#line 1051 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 4635 "bison_parser.cpp"
+#line 5729 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1049 "bison_parser.y"
+#line 1053 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 4641 "bison_parser.cpp"
+#line 5735 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1050 "bison_parser.y"
+#line 1054 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4647 "bison_parser.cpp"
+#line 5741 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1052 "bison_parser.y"
+#line 1056 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 4657 "bison_parser.cpp"
+#line 5751 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1057 "bison_parser.y"
+#line 1061 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 4663 "bison_parser.cpp"
+#line 5757 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1059 "bison_parser.y"
+#line 1063 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 4669 "bison_parser.cpp"
+#line 5763 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1060 "bison_parser.y"
+#line 1064 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 4675 "bison_parser.cpp"
+#line 5769 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1062 "bison_parser.y"
+#line 1066 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 4681 "bison_parser.cpp"
+#line 5775 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1063 "bison_parser.y"
+#line 1067 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 4687 "bison_parser.cpp"
+#line 5781 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1065 "bison_parser.y"
+#line 1069 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 4696 "bison_parser.cpp"
+#line 5790 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1069 "bison_parser.y"
+#line 1073 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 4705 "bison_parser.cpp"
+#line 5799 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1074 "bison_parser.y"
+#line 1078 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 4711 "bison_parser.cpp"
+#line 5805 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1076 "bison_parser.y"
+#line 1080 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 4717 "bison_parser.cpp"
+#line 5811 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1077 "bison_parser.y"
+#line 1081 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 4723 "bison_parser.cpp"
+#line 5817 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1078 "bison_parser.y"
+#line 1082 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 4729 "bison_parser.cpp"
+#line 5823 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1080 "bison_parser.y"
+#line 1084 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 4735 "bison_parser.cpp"
+#line 5829 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1081 "bison_parser.y"
+#line 1085 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -4755,115 +5849,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 4759 "bison_parser.cpp"
+#line 5853 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1103 "bison_parser.y"
+#line 1107 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4765 "bison_parser.cpp"
+#line 5859 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1104 "bison_parser.y"
+#line 1108 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4771 "bison_parser.cpp"
+#line 5865 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1106 "bison_parser.y"
+#line 1110 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 4777 "bison_parser.cpp"
+#line 5871 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1107 "bison_parser.y"
+#line 1111 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4783 "bison_parser.cpp"
+#line 5877 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1108 "bison_parser.y"
+#line 1112 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 4789 "bison_parser.cpp"
+#line 5883 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1109 "bison_parser.y"
+#line 1113 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 4795 "bison_parser.cpp"
+#line 5889 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1110 "bison_parser.y"
+#line 1114 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 4801 "bison_parser.cpp"
+#line 5895 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1111 "bison_parser.y"
+#line 1115 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 4807 "bison_parser.cpp"
+#line 5901 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1116 "bison_parser.y"
+#line 1120 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4816 "bison_parser.cpp"
+#line 5910 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1120 "bison_parser.y"
+#line 1124 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4825 "bison_parser.cpp"
+#line 5919 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1126 "bison_parser.y"
+#line 1130 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 4831 "bison_parser.cpp"
+#line 5925 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1127 "bison_parser.y"
+#line 1131 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4837 "bison_parser.cpp"
+#line 5931 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1129 "bison_parser.y"
+#line 1133 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4846 "bison_parser.cpp"
+#line 5940 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1133 "bison_parser.y"
+#line 1137 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4855 "bison_parser.cpp"
+#line 5949 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1138 "bison_parser.y"
+#line 1142 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 4863 "bison_parser.cpp"
+#line 5957 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1142 "bison_parser.y"
+#line 1146 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -4872,23 +5966,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 4876 "bison_parser.cpp"
+#line 5970 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1150 "bison_parser.y"
+#line 1154 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4882 "bison_parser.cpp"
+#line 5976 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1151 "bison_parser.y"
+#line 1155 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4888 "bison_parser.cpp"
+#line 5982 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1153 "bison_parser.y"
+#line 1157 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -4897,522 +5991,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 4901 "bison_parser.cpp"
+#line 5995 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1164 "bison_parser.y"
+#line 1168 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 4907 "bison_parser.cpp"
+#line 6001 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1166 "bison_parser.y"
+#line 1170 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 4915 "bison_parser.cpp"
+#line 6009 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1172 "bison_parser.y"
+#line 1176 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 4921 "bison_parser.cpp"
+#line 6015 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1173 "bison_parser.y"
+#line 1177 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 4927 "bison_parser.cpp"
+#line 6021 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1174 "bison_parser.y"
+#line 1178 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 4933 "bison_parser.cpp"
+#line 6027 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1175 "bison_parser.y"
+#line 1179 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 4939 "bison_parser.cpp"
+#line 6033 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1176 "bison_parser.y"
+#line 1180 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 4945 "bison_parser.cpp"
+#line 6039 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1178 "bison_parser.y"
+#line 1182 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 4951 "bison_parser.cpp"
+#line 6045 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1179 "bison_parser.y"
+#line 1183 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 4957 "bison_parser.cpp"
+#line 6051 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1180 "bison_parser.y"
+#line 1184 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 4963 "bison_parser.cpp"
+#line 6057 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1181 "bison_parser.y"
+#line 1185 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 4969 "bison_parser.cpp"
+#line 6063 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1182 "bison_parser.y"
+#line 1186 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 4975 "bison_parser.cpp"
+#line 6069 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1183 "bison_parser.y"
+#line 1187 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 4981 "bison_parser.cpp"
+#line 6075 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1184 "bison_parser.y"
+#line 1188 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 4987 "bison_parser.cpp"
+#line 6081 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1185 "bison_parser.y"
+#line 1189 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 4993 "bison_parser.cpp"
+#line 6087 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1186 "bison_parser.y"
+#line 1190 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 4999 "bison_parser.cpp"
+#line 6093 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1187 "bison_parser.y"
+#line 1191 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 5005 "bison_parser.cpp"
+#line 6099 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1189 "bison_parser.y"
+#line 1193 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 5011 "bison_parser.cpp"
+#line 6105 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1190 "bison_parser.y"
+#line 1194 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 5017 "bison_parser.cpp"
+#line 6111 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1192 "bison_parser.y"
+#line 1196 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 5023 "bison_parser.cpp"
+#line 6117 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1193 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 5029 "bison_parser.cpp"
+#line 6123 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1194 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 5035 "bison_parser.cpp"
+#line 6129 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1195 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 5041 "bison_parser.cpp"
+#line 6135 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1199 "bison_parser.y"
+#line 1203 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 5047 "bison_parser.cpp"
+#line 6141 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1200 "bison_parser.y"
+#line 1204 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5053 "bison_parser.cpp"
+#line 6147 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1201 "bison_parser.y"
+#line 1205 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 5059 "bison_parser.cpp"
+#line 6153 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1202 "bison_parser.y"
+#line 1206 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 5065 "bison_parser.cpp"
+#line 6159 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1204 "bison_parser.y"
+#line 1208 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5071 "bison_parser.cpp"
+#line 6165 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1205 "bison_parser.y"
+#line 1209 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 5077 "bison_parser.cpp"
+#line 6171 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1207 "bison_parser.y"
+#line 1211 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 5083 "bison_parser.cpp"
+#line 6177 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1208 "bison_parser.y"
+#line 1212 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 5089 "bison_parser.cpp"
+#line 6183 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1210 "bison_parser.y"
+#line 1214 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5095 "bison_parser.cpp"
+#line 6189 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1211 "bison_parser.y"
+#line 1215 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 5101 "bison_parser.cpp"
+#line 6195 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1212 "bison_parser.y"
+#line 1216 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 5107 "bison_parser.cpp"
+#line 6201 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1213 "bison_parser.y"
+#line 1217 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 5113 "bison_parser.cpp"
+#line 6207 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1214 "bison_parser.y"
+#line 1218 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 5119 "bison_parser.cpp"
+#line 6213 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1215 "bison_parser.y"
+#line 1219 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 5125 "bison_parser.cpp"
+#line 6219 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1216 "bison_parser.y"
+#line 1220 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 5131 "bison_parser.cpp"
+#line 6225 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1220 "bison_parser.y"
+#line 1224 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5137 "bison_parser.cpp"
+#line 6231 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1221 "bison_parser.y"
+#line 1225 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5143 "bison_parser.cpp"
+#line 6237 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1222 "bison_parser.y"
+#line 1226 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 5149 "bison_parser.cpp"
+#line 6243 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1223 "bison_parser.y"
+#line 1227 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 5155 "bison_parser.cpp"
+#line 6249 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1227 "bison_parser.y"
+#line 1231 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 5161 "bison_parser.cpp"
+#line 6255 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1228 "bison_parser.y"
+#line 1232 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 5167 "bison_parser.cpp"
+#line 6261 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1230 "bison_parser.y"
+#line 1234 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5173 "bison_parser.cpp"
+#line 6267 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1231 "bison_parser.y"
+#line 1235 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5179 "bison_parser.cpp"
+#line 6273 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1236 "bison_parser.y"
+#line 1240 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 5185 "bison_parser.cpp"
+#line 6279 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1237 "bison_parser.y"
+#line 1241 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 5191 "bison_parser.cpp"
+#line 6285 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1238 "bison_parser.y"
+#line 1242 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 5199 "bison_parser.cpp"
+#line 6293 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1242 "bison_parser.y"
+#line 1246 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 5205 "bison_parser.cpp"
+#line 6299 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1243 "bison_parser.y"
+#line 1247 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 5211 "bison_parser.cpp"
+#line 6305 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1244 "bison_parser.y"
+#line 1248 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 5217 "bison_parser.cpp"
+#line 6311 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1246 "bison_parser.y"
+#line 1250 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 5223 "bison_parser.cpp"
+#line 6317 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1247 "bison_parser.y"
+#line 1251 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 5229 "bison_parser.cpp"
+#line 6323 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1248 "bison_parser.y"
+#line 1252 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 5235 "bison_parser.cpp"
+#line 6329 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1249 "bison_parser.y"
+#line 1253 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 5241 "bison_parser.cpp"
+#line 6335 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1250 "bison_parser.y"
+#line 1254 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 5247 "bison_parser.cpp"
+#line 6341 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1252 "bison_parser.y"
+#line 1256 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 5253 "bison_parser.cpp"
+#line 6347 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1254 "bison_parser.y"
+#line 1258 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 5259 "bison_parser.cpp"
+#line 6353 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1256 "bison_parser.y"
+#line 1260 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5265 "bison_parser.cpp"
+#line 6359 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1257 "bison_parser.y"
+#line 1261 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5271 "bison_parser.cpp"
+#line 6365 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1258 "bison_parser.y"
+#line 1262 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 5277 "bison_parser.cpp"
+#line 6371 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1259 "bison_parser.y"
+#line 1263 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 5283 "bison_parser.cpp"
+#line 6377 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1260 "bison_parser.y"
+#line 1264 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5289 "bison_parser.cpp"
+#line 6383 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1261 "bison_parser.y"
+#line 1265 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 5295 "bison_parser.cpp"
+#line 6389 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1263 "bison_parser.y"
+#line 1267 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 5301 "bison_parser.cpp"
+#line 6395 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1264 "bison_parser.y"
+#line 1268 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 5307 "bison_parser.cpp"
+#line 6401 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1265 "bison_parser.y"
+#line 1269 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 5313 "bison_parser.cpp"
+#line 6407 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1266 "bison_parser.y"
+#line 1270 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 5319 "bison_parser.cpp"
+#line 6413 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1267 "bison_parser.y"
+#line 1271 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 5325 "bison_parser.cpp"
+#line 6419 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1268 "bison_parser.y"
+#line 1272 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 5331 "bison_parser.cpp"
+#line 6425 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1272 "bison_parser.y"
+#line 1276 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 5337 "bison_parser.cpp"
+#line 6431 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1274 "bison_parser.y"
+#line 1278 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 5346 "bison_parser.cpp"
+#line 6440 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1279 "bison_parser.y"
+#line 1283 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5352 "bison_parser.cpp"
+#line 6446 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1281 "bison_parser.y"
+#line 1285 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 5358 "bison_parser.cpp"
+#line 6452 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1282 "bison_parser.y"
+#line 1286 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 5364 "bison_parser.cpp"
+#line 6458 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1283 "bison_parser.y"
+#line 1287 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 5370 "bison_parser.cpp"
+#line 6464 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1284 "bison_parser.y"
+#line 1288 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 5376 "bison_parser.cpp"
+#line 6470 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1288 "bison_parser.y"
+#line 1292 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 5382 "bison_parser.cpp"
+#line 6476 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1290 "bison_parser.y"
+#line 1294 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 5388 "bison_parser.cpp"
+#line 6482 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1291 "bison_parser.y"
+#line 1295 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 5394 "bison_parser.cpp"
+#line 6488 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1293 "bison_parser.y"
+#line 1297 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 5400 "bison_parser.cpp"
+#line 6494 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1296 "bison_parser.y"
+#line 1300 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 5406 "bison_parser.cpp"
+#line 6500 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1298 "bison_parser.y"
+#line 1302 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 5412 "bison_parser.cpp"
+#line 6506 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1300 "bison_parser.y"
+#line 1304 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5423,17 +6517,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 5427 "bison_parser.cpp"
+#line 6521 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1311 "bison_parser.y"
+#line 1315 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 5433 "bison_parser.cpp"
+#line 6527 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1312 "bison_parser.y"
+#line 1316 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -5445,11 +6539,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 5449 "bison_parser.cpp"
+#line 6543 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1323 "bison_parser.y"
+#line 1327 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -5481,61 +6575,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 5485 "bison_parser.cpp"
+#line 6579 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1355 "bison_parser.y"
+#line 1359 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yyloc.param_list.size();
   yyloc.param_list.push_back((yyval.expr));
 }
-#line 5495 "bison_parser.cpp"
+#line 6589 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1364 "bison_parser.y"
+#line 1368 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 5506 "bison_parser.cpp"
+#line 6600 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1373 "bison_parser.y"
+#line 1377 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5517 "bison_parser.cpp"
+#line 6611 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1380 "bison_parser.y"
+#line 1384 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 5526 "bison_parser.cpp"
+#line 6620 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1384 "bison_parser.y"
+#line 1388 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 5535 "bison_parser.cpp"
+#line 6629 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1389 "bison_parser.y"
+#line 1393 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -5543,215 +6637,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 5547 "bison_parser.cpp"
+#line 6641 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1397 "bison_parser.y"
+#line 1401 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 5557 "bison_parser.cpp"
+#line 6651 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1403 "bison_parser.y"
+#line 1407 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5566 "bison_parser.cpp"
+#line 6660 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1407 "bison_parser.y"
+#line 1411 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 5575 "bison_parser.cpp"
+#line 6669 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1412 "bison_parser.y"
+#line 1416 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 5581 "bison_parser.cpp"
+#line 6675 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1413 "bison_parser.y"
+#line 1417 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 5587 "bison_parser.cpp"
+#line 6681 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1415 "bison_parser.y"
+#line 1419 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 5593 "bison_parser.cpp"
+#line 6687 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1417 "bison_parser.y"
+#line 1421 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 5599 "bison_parser.cpp"
+#line 6693 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1419 "bison_parser.y"
+#line 1423 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5605 "bison_parser.cpp"
+#line 6699 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1420 "bison_parser.y"
+#line 1424 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 5611 "bison_parser.cpp"
+#line 6705 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1422 "bison_parser.y"
+#line 1426 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 5617 "bison_parser.cpp"
+#line 6711 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1428 "bison_parser.y"
+#line 1432 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 5623 "bison_parser.cpp"
+#line 6717 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1429 "bison_parser.y"
+#line 1433 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 5629 "bison_parser.cpp"
+#line 6723 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1431 "bison_parser.y"
+#line 1435 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 5638 "bison_parser.cpp"
+#line 6732 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1435 "bison_parser.y"
+#line 1439 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 5647 "bison_parser.cpp"
+#line 6741 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1440 "bison_parser.y"
+#line 1444 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 5658 "bison_parser.cpp"
+#line 6752 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1446 "bison_parser.y"
+#line 1450 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 5669 "bison_parser.cpp"
+#line 6763 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1453 "bison_parser.y"
+#line 1457 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 5675 "bison_parser.cpp"
+#line 6769 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1454 "bison_parser.y"
+#line 1458 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 5681 "bison_parser.cpp"
+#line 6775 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1455 "bison_parser.y"
+#line 1459 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 5687 "bison_parser.cpp"
+#line 6781 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1456 "bison_parser.y"
+#line 1460 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 5693 "bison_parser.cpp"
+#line 6787 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1458 "bison_parser.y"
+#line 1462 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 5699 "bison_parser.cpp"
+#line 6793 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1459 "bison_parser.y"
+#line 1463 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 5705 "bison_parser.cpp"
+#line 6799 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1460 "bison_parser.y"
+#line 1464 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 5711 "bison_parser.cpp"
+#line 6805 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1466 "bison_parser.y"
+#line 1470 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 5717 "bison_parser.cpp"
+#line 6811 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1468 "bison_parser.y"
+#line 1472 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 5723 "bison_parser.cpp"
+#line 6817 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1470 "bison_parser.y"
+#line 1474 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 5732 "bison_parser.cpp"
+#line 6826 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1474 "bison_parser.y"
+#line 1478 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 5741 "bison_parser.cpp"
+#line 6835 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1479 "bison_parser.y"
+#line 1483 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 5751 "bison_parser.cpp"
+#line 6845 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1489 "bison_parser.y"
+#line 1493 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5759,11 +6853,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 5763 "bison_parser.cpp"
+#line 6857 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1496 "bison_parser.y"
+#line 1500 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5772,11 +6866,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 5776 "bison_parser.cpp"
+#line 6870 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1504 "bison_parser.y"
+#line 1508 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -5785,89 +6879,89 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 5789 "bison_parser.cpp"
+#line 6883 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1513 "bison_parser.y"
+#line 1517 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 5795 "bison_parser.cpp"
+#line 6889 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1514 "bison_parser.y"
+#line 1518 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 5801 "bison_parser.cpp"
+#line 6895 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1515 "bison_parser.y"
+#line 1519 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 5807 "bison_parser.cpp"
+#line 6901 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1516 "bison_parser.y"
+#line 1520 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 5813 "bison_parser.cpp"
+#line 6907 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1517 "bison_parser.y"
+#line 1521 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 5819 "bison_parser.cpp"
+#line 6913 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1518 "bison_parser.y"
+#line 1522 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 5825 "bison_parser.cpp"
+#line 6919 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1519 "bison_parser.y"
+#line 1523 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 5831 "bison_parser.cpp"
+#line 6925 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1520 "bison_parser.y"
+#line 1524 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 5837 "bison_parser.cpp"
+#line 6931 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1521 "bison_parser.y"
+#line 1525 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 5843 "bison_parser.cpp"
+#line 6937 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1522 "bison_parser.y"
+#line 1526 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 5849 "bison_parser.cpp"
+#line 6943 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1533 "bison_parser.y"
+#line 1537 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 5858 "bison_parser.cpp"
+#line 6952 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1537 "bison_parser.y"
+#line 1541 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 5867 "bison_parser.cpp"
+#line 6961 "bison_parser.cpp"
     break;
 
 
-#line 5871 "bison_parser.cpp"
+#line 6965 "bison_parser.cpp"
 
       default: break;
     }
@@ -6096,7 +7190,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1543 "bison_parser.y"
+#line 1547 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index c041b8c..b9454a4 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -274,7 +274,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 102 "bison_parser.y"
+#line 106 "bison_parser.y"
 
   // clang-format on
   bool bval;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 13aaf4e..8f85431 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -76,6 +76,10 @@
 %define api.token.prefix {SQL_}
 
 %define parse.error verbose
+
+// Do not reduce on an unexpected token: a text with an unexpected token after its last statement has no statements.
+%define lr.default-reduction consistent
+
 %locations
 
 %initial-action {
-- 
2.43.0


From 25ba9803d5da1834982745ec5f8208087d838be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 16/25] fix: measure statement lengths at the semicolons

The length of a statement was taken when it was reduced, which happens before
its semicolon is read if nothing can follow (SHOW TABLES, hints, ...); its
semicolon then counted for the next statement. Nested statements had an
undefined length.
---
 src/parser/bison_parser.cpp | 314 +++++++++++++++++++-----------------
 src/parser/bison_parser.h   |   7 +-
 src/parser/bison_parser.y   |  16 +-
 src/parser/parser_typedef.h |   3 -
 src/sql/SQLStatement.cpp    |   2 +-
 5 files changed, 175 insertions(+), 167 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 26e31ac..fe869f3 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -874,7 +874,7 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   391,   391,   410,   416,   423,   427,   431,   432,   433,
+       0,   389,   389,   411,   416,   423,   427,   431,   432,   433,
      435,   436,   437,   438,   439,   440,   441,   442,   443,   444,
      450,   451,   453,   457,   462,   466,   476,   477,   478,   480,
      480,   486,   492,   494,   498,   510,   516,   533,   548,   550,
@@ -909,7 +909,7 @@ static const yytype_int16 yyrline[] =
     1426,  1432,  1433,  1435,  1439,  1444,  1450,  1457,  1458,  1459,
     1460,  1462,  1463,  1464,  1470,  1470,  1472,  1474,  1478,  1483,
     1493,  1500,  1508,  1517,  1518,  1519,  1520,  1521,  1522,  1523,
-    1524,  1525,  1526,  1528,  1534,  1534,  1537,  1541
+    1524,  1525,  1526,  1528,  1534,  1535,  1537,  1541
 };
 #endif
 
@@ -3184,31 +3184,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 198 "bison_parser.y"
+#line 196 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3190 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 198 "bison_parser.y"
+#line 196 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3196 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3202 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3208 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -3221,19 +3221,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
 #line 3227 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
 #line 3233 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3246,7 +3246,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3259,67 +3259,67 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3265 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
 #line 3271 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
 #line 3277 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 198 "bison_parser.y"
+#line 196 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3283 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
 #line 3289 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
 #line 3295 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3301 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 198 "bison_parser.y"
+#line 196 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3307 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
 #line 3313 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
 #line 3319 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 251 "bison_parser.y"
+#line 249 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
@@ -3328,31 +3328,31 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
 #line 3334 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
 #line 3340 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
 #line 3346 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3352 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -3365,37 +3365,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
 #line 3371 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
 #line 3377 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3383 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3389 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
 #line 3395 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 243 "bison_parser.y"
+#line 241 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3408,7 +3408,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 243 "bison_parser.y"
+#line 241 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3421,73 +3421,73 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3427 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
 #line 3433 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
 #line 3439 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
 #line 3445 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3451 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
 #line 3457 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
 #line 3463 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
 #line 3469 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
 #line 3475 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
 #line 3481 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
 #line 3487 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 190 "bison_parser.y"
+#line 188 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -3500,13 +3500,13 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
 #line 3506 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 212 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).update_vec))) {
     free(ptr->column);
@@ -3519,7 +3519,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 207 "bison_parser.y"
+#line 205 "bison_parser.y"
             {
   free(((*yyvaluep).update_t)->column);
   delete ((*yyvaluep).update_t)->value;
@@ -3529,67 +3529,67 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3535 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3541 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3547 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3553 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3559 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
 #line 3565 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
 #line 3571 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3577 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3583 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3589 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3602,37 +3602,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3608 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3614 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3620 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
 #line 3626 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3632 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3645,7 +3645,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3658,37 +3658,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
 #line 3664 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3670 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3676 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
 #line 3682 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
 #line 3688 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3701,7 +3701,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3714,7 +3714,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3727,103 +3727,103 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3733 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3739 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3745 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3751 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3757 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3763 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3769 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3775 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3781 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3787 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3793 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3799 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3805 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3811 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3817 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
 #line 3823 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3836,151 +3836,151 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
 #line 3842 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3848 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
 #line 3854 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3860 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3866 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3872 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3878 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 3884 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3890 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3896 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3902 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3908 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3914 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3920 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3926 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3932 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3938 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3944 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3950 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3956 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3962 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3968 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3974 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3980 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -3993,19 +3993,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3999 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 4005 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 186 "bison_parser.y"
+#line 184 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
@@ -4014,37 +4014,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 198 "bison_parser.y"
+#line 196 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 4020 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4026 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4032 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4038 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4044 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 229 "bison_parser.y"
+#line 227 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4063,7 +4063,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 229 "bison_parser.y"
+#line 227 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4082,7 +4082,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 220 "bison_parser.y"
+#line 218 "bison_parser.y"
             {
   if (((*yyvaluep).locking_t)->tables) {
     for (auto ptr : *(((*yyvaluep).locking_t)->tables)) {
@@ -4096,19 +4096,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 4102 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 4108 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4121,7 +4121,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4134,7 +4134,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 199 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4147,31 +4147,31 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
 #line 4153 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 4159 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 185 "bison_parser.y"
+#line 183 "bison_parser.y"
             { }
 #line 4165 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 255 "bison_parser.y"
+#line 253 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 4171 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 190 "bison_parser.y"
+#line 188 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -4277,7 +4277,7 @@ YYLTYPE yylloc = yyloc_default;
 
 
 /* User initialization code.  */
-#line 85 "bison_parser.y"
+#line 84 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -4285,10 +4285,9 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.first_line = 0;
   yylloc.last_line = 0;
   yylloc.total_column = 0;
-  yylloc.string_length = 0;
 }
 
-#line 4292 "bison_parser.cpp"
+#line 4291 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -4499,8 +4498,10 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 391 "bison_parser.y"
+#line 389 "bison_parser.y"
                                      {
+  (yyvsp[-1].stmt_vec)->back()->stringLength = (yylsp[0]).total_column - (yylsp[-1]).total_column;
+
   for (SQLStatement* stmt : *(yyvsp[-1].stmt_vec)) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
@@ -4517,14 +4518,13 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 4521 "bison_parser.cpp"
+#line 4522 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 410 "bison_parser.y"
+#line 411 "bison_parser.y"
                            {
-  (yyvsp[0].statement)->stringLength = yylloc.string_length;
-  yylloc.string_length = 0;
+  (yyloc).total_column = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
@@ -4534,8 +4534,8 @@ yyreduce:
   case 4: /* statement_list: statement_list ';' statement  */
 #line 416 "bison_parser.y"
                                {
-  (yyvsp[0].statement)->stringLength = yylloc.string_length;
-  yylloc.string_length = 0;
+  (yyvsp[-2].stmt_vec)->back()->stringLength = (yylsp[-1]).total_column - (yylsp[-2]).total_column;
+  (yyloc).total_column = (yylsp[-1]).total_column;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
@@ -6942,13 +6942,25 @@ yyreduce:
 #line 6943 "bison_parser.cpp"
     break;
 
+  case 354: /* opt_semicolon: ';'  */
+#line 1534 "bison_parser.y"
+                    { (yyloc).total_column = (yylsp[0]).total_column; }
+#line 6949 "bison_parser.cpp"
+    break;
+
+  case 355: /* opt_semicolon: %empty  */
+#line 1535 "bison_parser.y"
+                                                    { (yyloc).total_column = yylloc.total_column; }
+#line 6955 "bison_parser.cpp"
+    break;
+
   case 356: /* ident_commalist: IDENTIFIER  */
 #line 1537 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 6952 "bison_parser.cpp"
+#line 6964 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
@@ -6957,11 +6969,11 @@ yyreduce:
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 6961 "bison_parser.cpp"
+#line 6973 "bison_parser.cpp"
     break;
 
 
-#line 6965 "bison_parser.cpp"
+#line 6977 "bison_parser.cpp"
 
       default: break;
     }
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index b9454a4..712dd08 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -67,7 +67,6 @@ extern int hsql_debug;
   yylloc->first_column = yylloc->last_column; \
   for (int i = 0; i < yyleng; i++) {          \
     yylloc->total_column++;                   \
-    yylloc->string_length++;                  \
     if (yytext[i] == '\n') {                  \
       yylloc->last_line++;                    \
       yylloc->last_column = 0;                \
@@ -76,7 +75,7 @@ extern int hsql_debug;
     }                                         \
   }
 
-#line 80 "bison_parser.h"
+#line 79 "bison_parser.h"
 
 /* Token kinds.  */
 #ifndef HSQL_TOKENTYPE
@@ -274,7 +273,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 106 "bison_parser.y"
+#line 104 "bison_parser.y"
 
   // clang-format on
   bool bval;
@@ -349,7 +348,7 @@ union HSQL_STYPE
 
   // clang-format off
 
-#line 353 "bison_parser.h"
+#line 352 "bison_parser.h"
 
 };
 typedef union HSQL_STYPE HSQL_STYPE;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 8f85431..bcbd906 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -49,7 +49,6 @@
   yylloc->first_column = yylloc->last_column; \
   for (int i = 0; i < yyleng; i++) {          \
     yylloc->total_column++;                   \
-    yylloc->string_length++;                  \
     if (yytext[i] == '\n') {                  \
       yylloc->last_line++;                    \
       yylloc->last_column = 0;                \
@@ -89,7 +88,6 @@
   @$.first_line = 0;
   @$.last_line = 0;
   @$.total_column = 0;
-  @$.string_length = 0;
 };
 
 
@@ -389,6 +387,8 @@
 
 // Defines our general input.
 input : statement_list opt_semicolon {
+  $1->back()->stringLength = @2.total_column - @1.total_column;
+
   for (SQLStatement* stmt : *$1) {
     // Transfers ownership of the statement.
     result->addStatement(stmt);
@@ -407,15 +407,15 @@ input : statement_list opt_semicolon {
   };
 
 // clang-format on
+// The total column of a statement list is the end of its last semicolon, i.e., the start of its last statement.
 statement_list : statement {
-  $1->stringLength = yylloc.string_length;
-  yylloc.string_length = 0;
+  @$.total_column = 0;
   $$ = new std::vector<SQLStatement*>();
   $$->push_back($1);
 }
 | statement_list ';' statement {
-  $3->stringLength = yylloc.string_length;
-  yylloc.string_length = 0;
+  $1->back()->stringLength = @2.total_column - @1.total_column;
+  @$.total_column = @2.total_column;
   $1->push_back($3);
   $$ = $1;
 };
@@ -1531,8 +1531,8 @@ join_condition : expr;
  * Misc
  ******************************/
 
-opt_semicolon : ';' | /* empty */
-    ;
+opt_semicolon : ';' { @$.total_column = @1.total_column; }
+| /* empty, i.e., the end of the text is reached */ { @$.total_column = yylloc.total_column; };
 
 ident_commalist : IDENTIFIER {
   $$ = new std::vector<char*>();
diff --git a/src/parser/parser_typedef.h b/src/parser/parser_typedef.h
index 61afef4..7b5d439 100644
--- a/src/parser/parser_typedef.h
+++ b/src/parser/parser_typedef.h
@@ -19,9 +19,6 @@ struct HSQL_CUST_LTYPE {
 
   int total_column;
 
-  // Length of the string in the SQL query string
-  int string_length;
-
   // Parameters.
   // int param_id;
   std::vector<void*> param_list;
diff --git a/src/sql/SQLStatement.cpp b/src/sql/SQLStatement.cpp
index 52ecbec..a864f29 100644
--- a/src/sql/SQLStatement.cpp
+++ b/src/sql/SQLStatement.cpp
@@ -4,7 +4,7 @@
 namespace hsql {
 
 // SQLStatement
-SQLStatement::SQLStatement(StatementType type) : hints(nullptr), type_(type) {}
+SQLStatement::SQLStatement(StatementType type) : stringLength(0), hints(nullptr), type_(type) {}
 
 SQLStatement::~SQLStatement() {
   if (hints) {
-- 
2.43.0


From 86c550845723e46d6c95b30cca84e5a8d8cd787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 17/25] fix: collect parameters in linear time

The list of parameters was copied with every location on the parser stack, and
sorted for every parameter.
---
 src/SQLParserResult.cpp     |    6 +-
 src/parser/bison_parser.cpp | 1609 ++++++++++++++++++-----------------
 src/parser/bison_parser.h   |    2 +-
 src/parser/bison_parser.y   |    7 +-
 src/parser/parser_typedef.h |    5 +-
 5 files changed, 817 insertions(+), 812 deletions(-)

diff --git a/src/SQLParserResult.cpp b/src/SQLParserResult.cpp
index a8aa924..ae50dbc 100644
--- a/src/SQLParserResult.cpp
+++ b/src/SQLParserResult.cpp
@@ -90,8 +90,10 @@ void SQLParserResult::reset() {
 
 // Does NOT take ownership.
 void SQLParserResult::addParameter(Expr* parameter) {
-  parameters_.push_back(parameter);
-  std::sort(parameters_.begin(), parameters_.end(), [](const Expr* a, const Expr* b) { return a->ival < b->ival; });
+  // Keep the parameters sorted by their id. They are usually added in order.
+  const auto position = std::upper_bound(parameters_.begin(), parameters_.end(), parameter,
+                                         [](const Expr* a, const Expr* b) { return a->ival < b->ival; });
+  parameters_.insert(position, parameter);
 }
 
 const std::vector<Expr*>& SQLParserResult::parameters() { return parameters_; }
diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index fe869f3..0881d12 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -874,42 +874,42 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   389,   389,   411,   416,   423,   427,   431,   432,   433,
-     435,   436,   437,   438,   439,   440,   441,   442,   443,   444,
-     450,   451,   453,   457,   462,   466,   476,   477,   478,   480,
-     480,   486,   492,   494,   498,   510,   516,   533,   548,   550,
-     551,   552,   554,   568,   572,   582,   586,   610,   618,   631,
-     638,   653,   673,   674,   679,   690,   705,   717,   724,   732,
-     741,   742,   744,   748,   753,   754,   756,   764,   765,   766,
-     767,   768,   769,   770,   774,   775,   776,   777,   778,   779,
-     780,   781,   782,   783,   784,   786,   787,   789,   790,   791,
-     793,   794,   796,   800,   804,   809,   817,   818,   819,   820,
-     822,   823,   824,   826,   834,   840,   846,   852,   858,   859,
-     866,   872,   874,   884,   891,   902,   909,   917,   918,   925,
-     932,   936,   941,   951,   955,   959,   971,   971,   973,   974,
-     983,   984,   986,  1000,  1012,  1017,  1021,  1025,  1030,  1031,
-    1033,  1043,  1044,  1046,  1048,  1049,  1051,  1053,  1054,  1056,
-    1061,  1063,  1064,  1066,  1067,  1069,  1073,  1078,  1080,  1081,
-    1082,  1084,  1085,  1107,  1108,  1110,  1111,  1112,  1113,  1114,
-    1115,  1120,  1124,  1130,  1131,  1133,  1137,  1142,  1142,  1146,
-    1154,  1155,  1157,  1166,  1166,  1166,  1166,  1166,  1168,  1169,
-    1169,  1169,  1169,  1169,  1169,  1169,  1169,  1170,  1170,  1174,
-    1174,  1176,  1177,  1178,  1179,  1180,  1182,  1182,  1183,  1184,
-    1185,  1186,  1187,  1188,  1189,  1190,  1191,  1193,  1194,  1196,
-    1197,  1198,  1199,  1203,  1204,  1205,  1206,  1208,  1209,  1211,
-    1212,  1214,  1215,  1216,  1217,  1218,  1219,  1220,  1224,  1225,
-    1226,  1227,  1231,  1232,  1234,  1235,  1240,  1241,  1242,  1246,
-    1247,  1248,  1250,  1251,  1252,  1253,  1254,  1256,  1258,  1260,
-    1261,  1262,  1263,  1264,  1265,  1267,  1268,  1269,  1270,  1271,
-    1272,  1274,  1274,  1276,  1278,  1283,  1285,  1286,  1287,  1288,
-    1290,  1290,  1290,  1290,  1290,  1290,  1290,  1292,  1294,  1295,
-    1297,  1298,  1300,  1302,  1304,  1315,  1316,  1327,  1359,  1368,
-    1368,  1375,  1375,  1377,  1377,  1384,  1388,  1393,  1401,  1407,
-    1411,  1416,  1417,  1419,  1419,  1421,  1421,  1423,  1424,  1426,
-    1426,  1432,  1433,  1435,  1439,  1444,  1450,  1457,  1458,  1459,
-    1460,  1462,  1463,  1464,  1470,  1470,  1472,  1474,  1478,  1483,
-    1493,  1500,  1508,  1517,  1518,  1519,  1520,  1521,  1522,  1523,
-    1524,  1525,  1526,  1528,  1534,  1535,  1537,  1541
+       0,   390,   390,   412,   417,   424,   428,   432,   433,   434,
+     436,   437,   438,   439,   440,   441,   442,   443,   444,   445,
+     451,   452,   454,   458,   463,   467,   477,   478,   479,   481,
+     481,   487,   493,   495,   499,   511,   517,   534,   549,   551,
+     552,   553,   555,   569,   573,   583,   587,   611,   619,   632,
+     639,   654,   674,   675,   680,   691,   706,   718,   725,   733,
+     742,   743,   745,   749,   754,   755,   757,   765,   766,   767,
+     768,   769,   770,   771,   775,   776,   777,   778,   779,   780,
+     781,   782,   783,   784,   785,   787,   788,   790,   791,   792,
+     794,   795,   797,   801,   805,   810,   818,   819,   820,   821,
+     823,   824,   825,   827,   835,   841,   847,   853,   859,   860,
+     867,   873,   875,   885,   892,   903,   910,   918,   919,   926,
+     933,   937,   942,   952,   956,   960,   972,   972,   974,   975,
+     984,   985,   987,  1001,  1013,  1018,  1022,  1026,  1031,  1032,
+    1034,  1044,  1045,  1047,  1049,  1050,  1052,  1054,  1055,  1057,
+    1062,  1064,  1065,  1067,  1068,  1070,  1074,  1079,  1081,  1082,
+    1083,  1085,  1086,  1108,  1109,  1111,  1112,  1113,  1114,  1115,
+    1116,  1121,  1125,  1131,  1132,  1134,  1138,  1143,  1143,  1147,
+    1155,  1156,  1158,  1167,  1167,  1167,  1167,  1167,  1169,  1170,
+    1170,  1170,  1170,  1170,  1170,  1170,  1170,  1171,  1171,  1175,
+    1175,  1177,  1178,  1179,  1180,  1181,  1183,  1183,  1184,  1185,
+    1186,  1187,  1188,  1189,  1190,  1191,  1192,  1194,  1195,  1197,
+    1198,  1199,  1200,  1204,  1205,  1206,  1207,  1209,  1210,  1212,
+    1213,  1215,  1216,  1217,  1218,  1219,  1220,  1221,  1225,  1226,
+    1227,  1228,  1232,  1233,  1235,  1236,  1241,  1242,  1243,  1247,
+    1248,  1249,  1251,  1252,  1253,  1254,  1255,  1257,  1259,  1261,
+    1262,  1263,  1264,  1265,  1266,  1268,  1269,  1270,  1271,  1272,
+    1273,  1275,  1275,  1277,  1279,  1284,  1286,  1287,  1288,  1289,
+    1291,  1291,  1291,  1291,  1291,  1291,  1291,  1293,  1295,  1296,
+    1298,  1299,  1301,  1303,  1305,  1316,  1317,  1328,  1360,  1369,
+    1369,  1376,  1376,  1378,  1378,  1385,  1389,  1394,  1402,  1408,
+    1412,  1417,  1418,  1420,  1420,  1422,  1422,  1424,  1425,  1427,
+    1427,  1433,  1434,  1436,  1440,  1445,  1451,  1458,  1459,  1460,
+    1461,  1463,  1464,  1465,  1471,  1471,  1473,  1475,  1479,  1484,
+    1494,  1501,  1509,  1518,  1519,  1520,  1521,  1522,  1523,  1524,
+    1525,  1526,  1527,  1529,  1535,  1536,  1538,  1542
 };
 #endif
 
@@ -3184,31 +3184,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 196 "bison_parser.y"
+#line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3190 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 196 "bison_parser.y"
+#line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3196 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3202 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3208 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -3221,19 +3221,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
 #line 3227 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
 #line 3233 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3246,7 +3246,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3259,67 +3259,67 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3265 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
 #line 3271 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
 #line 3277 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 196 "bison_parser.y"
+#line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3283 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
 #line 3289 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
 #line 3295 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3301 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 196 "bison_parser.y"
+#line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 3307 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
 #line 3313 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
 #line 3319 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 249 "bison_parser.y"
+#line 250 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
@@ -3328,31 +3328,31 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
 #line 3334 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
 #line 3340 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
 #line 3346 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3352 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -3365,37 +3365,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
 #line 3371 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
 #line 3377 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3383 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3389 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
 #line 3395 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 241 "bison_parser.y"
+#line 242 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3408,7 +3408,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 241 "bison_parser.y"
+#line 242 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3421,73 +3421,73 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3427 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
 #line 3433 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
 #line 3439 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
 #line 3445 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3451 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
 #line 3457 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
 #line 3463 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
 #line 3469 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
 #line 3475 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
 #line 3481 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
 #line 3487 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 188 "bison_parser.y"
+#line 189 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -3500,13 +3500,13 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
 #line 3506 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 210 "bison_parser.y"
+#line 211 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).update_vec))) {
     free(ptr->column);
@@ -3519,7 +3519,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 205 "bison_parser.y"
+#line 206 "bison_parser.y"
             {
   free(((*yyvaluep).update_t)->column);
   delete ((*yyvaluep).update_t)->value;
@@ -3529,67 +3529,67 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3535 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3541 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3547 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3553 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3559 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
 #line 3565 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
 #line 3571 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3577 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
 #line 3583 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3589 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3602,37 +3602,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3608 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3614 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3620 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
 #line 3626 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3632 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3645,7 +3645,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3658,37 +3658,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
 #line 3664 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3670 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3676 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
 #line 3682 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
 #line 3688 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3701,7 +3701,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3714,7 +3714,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3727,103 +3727,103 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3733 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3739 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3745 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3751 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3757 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3763 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3769 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3775 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3781 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3787 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3793 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3799 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3805 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3811 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3817 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
 #line 3823 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3836,151 +3836,151 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
 #line 3842 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3848 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
 #line 3854 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3860 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3866 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3872 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3878 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 3884 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3890 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3896 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3902 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3908 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3914 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3920 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3926 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3932 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3938 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3944 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3950 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3956 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 3962 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3968 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3974 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3980 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -3993,19 +3993,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 3999 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 4005 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 184 "bison_parser.y"
+#line 185 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
@@ -4014,37 +4014,37 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 196 "bison_parser.y"
+#line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
 #line 4020 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4026 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4032 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4038 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
 #line 4044 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 227 "bison_parser.y"
+#line 228 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4063,7 +4063,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 227 "bison_parser.y"
+#line 228 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4082,7 +4082,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 218 "bison_parser.y"
+#line 219 "bison_parser.y"
             {
   if (((*yyvaluep).locking_t)->tables) {
     for (auto ptr : *(((*yyvaluep).locking_t)->tables)) {
@@ -4096,19 +4096,19 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 4102 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 4108 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4121,7 +4121,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4134,7 +4134,7 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 197 "bison_parser.y"
+#line 198 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4147,31 +4147,31 @@ yydestruct (const char *yymsg,
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
 #line 4153 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
 #line 4159 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 183 "bison_parser.y"
+#line 184 "bison_parser.y"
             { }
 #line 4165 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 253 "bison_parser.y"
+#line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
 #line 4171 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 188 "bison_parser.y"
+#line 189 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -4285,9 +4285,10 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.first_line = 0;
   yylloc.last_line = 0;
   yylloc.total_column = 0;
+  yylloc.param_list = std::make_shared<std::vector<void*>>();
 }
 
-#line 4291 "bison_parser.cpp"
+#line 4292 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -4498,7 +4499,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 389 "bison_parser.y"
+#line 390 "bison_parser.y"
                                      {
   (yyvsp[-1].stmt_vec)->back()->stringLength = (yylsp[0]).total_column - (yylsp[-1]).total_column;
 
@@ -4508,7 +4509,7 @@ yyreduce:
   }
 
   unsigned param_id = 0;
-  for (void* param : yyloc.param_list) {
+  for (void* param : *yylloc.param_list) {
     if (param) {
       Expr* expr = (Expr*)param;
       expr->ival = param_id;
@@ -4518,235 +4519,235 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 4522 "bison_parser.cpp"
+#line 4523 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 411 "bison_parser.y"
+#line 412 "bison_parser.y"
                            {
   (yyloc).total_column = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 4532 "bison_parser.cpp"
+#line 4533 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 416 "bison_parser.y"
+#line 417 "bison_parser.y"
                                {
   (yyvsp[-2].stmt_vec)->back()->stringLength = (yylsp[-1]).total_column - (yylsp[-2]).total_column;
   (yyloc).total_column = (yylsp[-1]).total_column;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 4543 "bison_parser.cpp"
+#line 4544 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 423 "bison_parser.y"
+#line 424 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4552 "bison_parser.cpp"
+#line 4553 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 427 "bison_parser.y"
+#line 428 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4561 "bison_parser.cpp"
+#line 4562 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 431 "bison_parser.y"
+#line 432 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 4567 "bison_parser.cpp"
+#line 4568 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 432 "bison_parser.y"
+#line 433 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 4573 "bison_parser.cpp"
+#line 4574 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 433 "bison_parser.y"
+#line 434 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 4579 "bison_parser.cpp"
+#line 4580 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 435 "bison_parser.y"
+#line 436 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 4585 "bison_parser.cpp"
+#line 4586 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 436 "bison_parser.y"
+#line 437 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 4591 "bison_parser.cpp"
+#line 4592 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 437 "bison_parser.y"
+#line 438 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 4597 "bison_parser.cpp"
+#line 4598 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 438 "bison_parser.y"
+#line 439 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4603 "bison_parser.cpp"
+#line 4604 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 439 "bison_parser.y"
+#line 440 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4609 "bison_parser.cpp"
+#line 4610 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 440 "bison_parser.y"
+#line 441 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 4615 "bison_parser.cpp"
+#line 4616 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 441 "bison_parser.y"
+#line 442 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 4621 "bison_parser.cpp"
+#line 4622 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 442 "bison_parser.y"
+#line 443 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 4627 "bison_parser.cpp"
+#line 4628 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 443 "bison_parser.y"
+#line 444 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 4633 "bison_parser.cpp"
+#line 4634 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 444 "bison_parser.y"
+#line 445 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 4639 "bison_parser.cpp"
+#line 4640 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 450 "bison_parser.y"
+#line 451 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 4645 "bison_parser.cpp"
+#line 4646 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 451 "bison_parser.y"
+#line 452 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4651 "bison_parser.cpp"
+#line 4652 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 453 "bison_parser.y"
+#line 454 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4660 "bison_parser.cpp"
+#line 4661 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 457 "bison_parser.y"
+#line 458 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4669 "bison_parser.cpp"
+#line 4670 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 462 "bison_parser.y"
+#line 463 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 4678 "bison_parser.cpp"
+#line 4679 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 466 "bison_parser.y"
+#line 467 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 4688 "bison_parser.cpp"
+#line 4689 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 476 "bison_parser.y"
+#line 477 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 4694 "bison_parser.cpp"
+#line 4695 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 477 "bison_parser.y"
+#line 478 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 4700 "bison_parser.cpp"
+#line 4701 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 478 "bison_parser.y"
+#line 479 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 4706 "bison_parser.cpp"
+#line 4707 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 486 "bison_parser.y"
+#line 487 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 4716 "bison_parser.cpp"
+#line 4717 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 494 "bison_parser.y"
+#line 495 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 4725 "bison_parser.cpp"
+#line 4726 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 498 "bison_parser.y"
+#line 499 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 4735 "bison_parser.cpp"
+#line 4736 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 510 "bison_parser.y"
+#line 511 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4746 "bison_parser.cpp"
+#line 4747 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 516 "bison_parser.y"
+#line 517 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -4763,11 +4764,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 4767 "bison_parser.cpp"
+#line 4768 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 533 "bison_parser.y"
+#line 534 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -4782,35 +4783,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 4786 "bison_parser.cpp"
+#line 4787 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 548 "bison_parser.y"
+#line 549 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 4792 "bison_parser.cpp"
+#line 4793 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 550 "bison_parser.y"
+#line 551 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4798 "bison_parser.cpp"
+#line 4799 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 551 "bison_parser.y"
+#line 552 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4804 "bison_parser.cpp"
+#line 4805 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 552 "bison_parser.y"
+#line 553 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 4810 "bison_parser.cpp"
+#line 4811 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 554 "bison_parser.y"
+#line 555 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -4825,20 +4826,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4829 "bison_parser.cpp"
+#line 4830 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 568 "bison_parser.y"
+#line 569 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 4838 "bison_parser.cpp"
+#line 4839 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 572 "bison_parser.y"
+#line 573 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -4849,20 +4850,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4853 "bison_parser.cpp"
+#line 4854 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 582 "bison_parser.y"
+#line 583 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 4862 "bison_parser.cpp"
+#line 4863 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 586 "bison_parser.y"
+#line 587 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -4887,11 +4888,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 4891 "bison_parser.cpp"
+#line 4892 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 610 "bison_parser.y"
+#line 611 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -4899,11 +4900,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 4903 "bison_parser.cpp"
+#line 4904 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 618 "bison_parser.y"
+#line 619 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -4917,17 +4918,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 4921 "bison_parser.cpp"
+#line 4922 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 631 "bison_parser.y"
+#line 632 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 4927 "bison_parser.cpp"
+#line 4928 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 638 "bison_parser.y"
+#line 639 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -4943,11 +4944,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 4947 "bison_parser.cpp"
+#line 4948 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 653 "bison_parser.y"
+#line 654 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -4962,37 +4963,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 4966 "bison_parser.cpp"
+#line 4967 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 673 "bison_parser.y"
+#line 674 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 4972 "bison_parser.cpp"
+#line 4973 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 674 "bison_parser.y"
+#line 675 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4982 "bison_parser.cpp"
+#line 4983 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 679 "bison_parser.y"
+#line 680 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4992 "bison_parser.cpp"
+#line 4993 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 690 "bison_parser.y"
+#line 691 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
@@ -5008,11 +5009,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 5012 "bison_parser.cpp"
+#line 5013 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 705 "bison_parser.y"
+#line 706 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -5025,11 +5026,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 5029 "bison_parser.cpp"
+#line 5030 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 717 "bison_parser.y"
+#line 718 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -5037,11 +5038,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5041 "bison_parser.cpp"
+#line 5042 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 724 "bison_parser.y"
+#line 725 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -5050,11 +5051,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 5054 "bison_parser.cpp"
+#line 5055 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 732 "bison_parser.y"
+#line 733 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -5063,53 +5064,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5067 "bison_parser.cpp"
+#line 5068 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 741 "bison_parser.y"
+#line 742 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 5073 "bison_parser.cpp"
+#line 5074 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 742 "bison_parser.y"
+#line 743 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5079 "bison_parser.cpp"
+#line 5080 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 744 "bison_parser.y"
+#line 745 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 5088 "bison_parser.cpp"
+#line 5089 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 748 "bison_parser.y"
+#line 749 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 5097 "bison_parser.cpp"
+#line 5098 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 753 "bison_parser.y"
+#line 754 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 5103 "bison_parser.cpp"
+#line 5104 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 754 "bison_parser.y"
+#line 755 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 5109 "bison_parser.cpp"
+#line 5110 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 756 "bison_parser.y"
+#line 757 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -5117,192 +5118,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 5121 "bison_parser.cpp"
+#line 5122 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 764 "bison_parser.y"
+#line 765 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 5127 "bison_parser.cpp"
+#line 5128 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 765 "bison_parser.y"
+#line 766 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 5133 "bison_parser.cpp"
+#line 5134 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 766 "bison_parser.y"
+#line 767 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 5139 "bison_parser.cpp"
+#line 5140 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 767 "bison_parser.y"
+#line 768 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5145 "bison_parser.cpp"
+#line 5146 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 768 "bison_parser.y"
+#line 769 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 5151 "bison_parser.cpp"
+#line 5152 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 769 "bison_parser.y"
+#line 770 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5157 "bison_parser.cpp"
+#line 5158 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 770 "bison_parser.y"
+#line 771 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 5166 "bison_parser.cpp"
+#line 5167 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 774 "bison_parser.y"
+#line 775 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 5172 "bison_parser.cpp"
+#line 5173 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 775 "bison_parser.y"
+#line 776 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 5178 "bison_parser.cpp"
+#line 5179 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 776 "bison_parser.y"
+#line 777 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5184 "bison_parser.cpp"
+#line 5185 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 777 "bison_parser.y"
+#line 778 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5190 "bison_parser.cpp"
+#line 5191 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 778 "bison_parser.y"
+#line 779 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 5196 "bison_parser.cpp"
+#line 5197 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 779 "bison_parser.y"
+#line 780 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 5202 "bison_parser.cpp"
+#line 5203 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 780 "bison_parser.y"
+#line 781 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 5208 "bison_parser.cpp"
+#line 5209 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 781 "bison_parser.y"
+#line 782 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 5214 "bison_parser.cpp"
+#line 5215 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 782 "bison_parser.y"
+#line 783 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 5220 "bison_parser.cpp"
+#line 5221 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 783 "bison_parser.y"
+#line 784 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5226 "bison_parser.cpp"
+#line 5227 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 784 "bison_parser.y"
+#line 785 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5232 "bison_parser.cpp"
+#line 5233 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 786 "bison_parser.y"
+#line 787 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 5238 "bison_parser.cpp"
+#line 5239 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 787 "bison_parser.y"
+#line 788 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 5244 "bison_parser.cpp"
+#line 5245 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 789 "bison_parser.y"
+#line 790 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 5250 "bison_parser.cpp"
+#line 5251 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 790 "bison_parser.y"
+#line 791 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 5256 "bison_parser.cpp"
+#line 5257 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 791 "bison_parser.y"
+#line 792 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 5262 "bison_parser.cpp"
+#line 5263 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 793 "bison_parser.y"
+#line 794 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 5268 "bison_parser.cpp"
+#line 5269 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 794 "bison_parser.y"
+#line 795 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 5274 "bison_parser.cpp"
+#line 5275 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 796 "bison_parser.y"
+#line 797 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 5283 "bison_parser.cpp"
+#line 5284 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 800 "bison_parser.y"
+#line 801 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5292 "bison_parser.cpp"
+#line 5293 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 804 "bison_parser.y"
+#line 805 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 5302 "bison_parser.cpp"
+#line 5303 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 809 "bison_parser.y"
+#line 810 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -5310,159 +5311,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5314 "bison_parser.cpp"
+#line 5315 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 817 "bison_parser.y"
+#line 818 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 5320 "bison_parser.cpp"
+#line 5321 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 818 "bison_parser.y"
+#line 819 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 5326 "bison_parser.cpp"
+#line 5327 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 819 "bison_parser.y"
+#line 820 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 5332 "bison_parser.cpp"
+#line 5333 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 820 "bison_parser.y"
+#line 821 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 5338 "bison_parser.cpp"
+#line 5339 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 822 "bison_parser.y"
+#line 823 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 5344 "bison_parser.cpp"
+#line 5345 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 823 "bison_parser.y"
+#line 824 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 5350 "bison_parser.cpp"
+#line 5351 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 824 "bison_parser.y"
+#line 825 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 5356 "bison_parser.cpp"
+#line 5357 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 826 "bison_parser.y"
+#line 827 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 5362 "bison_parser.cpp"
+#line 5363 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 834 "bison_parser.y"
+#line 835 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5373 "bison_parser.cpp"
+#line 5374 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 840 "bison_parser.y"
+#line 841 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5384 "bison_parser.cpp"
+#line 5385 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 846 "bison_parser.y"
+#line 847 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 5394 "bison_parser.cpp"
+#line 5395 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 852 "bison_parser.y"
+#line 853 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 5404 "bison_parser.cpp"
+#line 5405 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 858 "bison_parser.y"
+#line 859 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 5410 "bison_parser.cpp"
+#line 5411 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 859 "bison_parser.y"
+#line 860 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5416 "bison_parser.cpp"
+#line 5417 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 866 "bison_parser.y"
+#line 867 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 5426 "bison_parser.cpp"
+#line 5427 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 872 "bison_parser.y"
+#line 873 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 5432 "bison_parser.cpp"
+#line 5433 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 874 "bison_parser.y"
+#line 875 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 5441 "bison_parser.cpp"
+#line 5442 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 884 "bison_parser.y"
+#line 885 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 5452 "bison_parser.cpp"
+#line 5453 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 891 "bison_parser.y"
+#line 892 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 5462 "bison_parser.cpp"
+#line 5463 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 902 "bison_parser.y"
+#line 903 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -5470,11 +5471,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 5474 "bison_parser.cpp"
+#line 5475 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 909 "bison_parser.y"
+#line 910 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -5482,80 +5483,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5486 "bison_parser.cpp"
+#line 5487 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 917 "bison_parser.y"
+#line 918 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 5492 "bison_parser.cpp"
+#line 5493 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 918 "bison_parser.y"
+#line 919 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 5498 "bison_parser.cpp"
+#line 5499 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 925 "bison_parser.y"
+#line 926 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 5509 "bison_parser.cpp"
+#line 5510 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 932 "bison_parser.y"
+#line 933 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 5518 "bison_parser.cpp"
+#line 5519 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 936 "bison_parser.y"
+#line 937 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 5527 "bison_parser.cpp"
+#line 5528 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 941 "bison_parser.y"
+#line 942 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 5537 "bison_parser.cpp"
+#line 5538 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 951 "bison_parser.y"
+#line 952 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5546 "bison_parser.cpp"
+#line 5547 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 955 "bison_parser.y"
+#line 956 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5555 "bison_parser.cpp"
+#line 5556 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 959 "bison_parser.y"
+#line 960 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5567,17 +5568,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 5571 "bison_parser.cpp"
+#line 5572 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 973 "bison_parser.y"
+#line 974 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 5577 "bison_parser.cpp"
+#line 5578 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 974 "bison_parser.y"
+#line 975 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5586,23 +5587,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 5590 "bison_parser.cpp"
+#line 5591 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 983 "bison_parser.y"
+#line 984 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5596 "bison_parser.cpp"
+#line 5597 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 984 "bison_parser.y"
+#line 985 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5602 "bison_parser.cpp"
+#line 5603 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 986 "bison_parser.y"
+#line 987 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -5617,11 +5618,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 5621 "bison_parser.cpp"
+#line 5622 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 1000 "bison_parser.y"
+#line 1001 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5633,59 +5634,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 5637 "bison_parser.cpp"
+#line 5638 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 1012 "bison_parser.y"
+#line 1013 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 5646 "bison_parser.cpp"
+#line 5647 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 1017 "bison_parser.y"
+#line 1018 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 5655 "bison_parser.cpp"
+#line 5656 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 1021 "bison_parser.y"
+#line 1022 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 5664 "bison_parser.cpp"
+#line 5665 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 1025 "bison_parser.y"
+#line 1026 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 5673 "bison_parser.cpp"
+#line 5674 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 1030 "bison_parser.y"
+#line 1031 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 5679 "bison_parser.cpp"
+#line 5680 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 1031 "bison_parser.y"
+#line 1032 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5685 "bison_parser.cpp"
+#line 5686 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 1033 "bison_parser.y"
+#line 1034 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -5695,141 +5696,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 5699 "bison_parser.cpp"
+#line 5700 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1043 "bison_parser.y"
+#line 1044 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 5705 "bison_parser.cpp"
+#line 5706 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1044 "bison_parser.y"
+#line 1045 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5711 "bison_parser.cpp"
+#line 5712 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1048 "bison_parser.y"
+#line 1049 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 5717 "bison_parser.cpp"
+#line 5718 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1049 "bison_parser.y"
+#line 1050 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 5723 "bison_parser.cpp"
+#line 5724 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1051 "bison_parser.y"
+#line 1052 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 5729 "bison_parser.cpp"
+#line 5730 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1053 "bison_parser.y"
+#line 1054 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 5735 "bison_parser.cpp"
+#line 5736 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1054 "bison_parser.y"
+#line 1055 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5741 "bison_parser.cpp"
+#line 5742 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1056 "bison_parser.y"
+#line 1057 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 5751 "bison_parser.cpp"
+#line 5752 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1061 "bison_parser.y"
+#line 1062 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 5757 "bison_parser.cpp"
+#line 5758 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1063 "bison_parser.y"
+#line 1064 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 5763 "bison_parser.cpp"
+#line 5764 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1064 "bison_parser.y"
+#line 1065 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5769 "bison_parser.cpp"
+#line 5770 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1066 "bison_parser.y"
+#line 1067 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 5775 "bison_parser.cpp"
+#line 5776 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1067 "bison_parser.y"
+#line 1068 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 5781 "bison_parser.cpp"
+#line 5782 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1069 "bison_parser.y"
+#line 1070 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 5790 "bison_parser.cpp"
+#line 5791 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1073 "bison_parser.y"
+#line 1074 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 5799 "bison_parser.cpp"
+#line 5800 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1078 "bison_parser.y"
+#line 1079 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 5805 "bison_parser.cpp"
+#line 5806 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1080 "bison_parser.y"
+#line 1081 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 5811 "bison_parser.cpp"
+#line 5812 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1081 "bison_parser.y"
+#line 1082 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 5817 "bison_parser.cpp"
+#line 5818 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1082 "bison_parser.y"
+#line 1083 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 5823 "bison_parser.cpp"
+#line 5824 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1084 "bison_parser.y"
+#line 1085 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 5829 "bison_parser.cpp"
+#line 5830 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1085 "bison_parser.y"
+#line 1086 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -5849,115 +5850,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 5853 "bison_parser.cpp"
+#line 5854 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1107 "bison_parser.y"
+#line 1108 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5859 "bison_parser.cpp"
+#line 5860 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1108 "bison_parser.y"
+#line 1109 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5865 "bison_parser.cpp"
+#line 5866 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1110 "bison_parser.y"
+#line 1111 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5871 "bison_parser.cpp"
+#line 5872 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1111 "bison_parser.y"
+#line 1112 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5877 "bison_parser.cpp"
+#line 5878 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1112 "bison_parser.y"
+#line 1113 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5883 "bison_parser.cpp"
+#line 5884 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1113 "bison_parser.y"
+#line 1114 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 5889 "bison_parser.cpp"
+#line 5890 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1114 "bison_parser.y"
+#line 1115 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5895 "bison_parser.cpp"
+#line 5896 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1115 "bison_parser.y"
+#line 1116 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5901 "bison_parser.cpp"
+#line 5902 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1120 "bison_parser.y"
+#line 1121 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 5910 "bison_parser.cpp"
+#line 5911 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1124 "bison_parser.y"
+#line 1125 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 5919 "bison_parser.cpp"
+#line 5920 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1130 "bison_parser.y"
+#line 1131 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5925 "bison_parser.cpp"
+#line 5926 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1131 "bison_parser.y"
+#line 1132 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5931 "bison_parser.cpp"
+#line 5932 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1133 "bison_parser.y"
+#line 1134 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 5940 "bison_parser.cpp"
+#line 5941 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1137 "bison_parser.y"
+#line 1138 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 5949 "bison_parser.cpp"
+#line 5950 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1142 "bison_parser.y"
+#line 1143 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 5957 "bison_parser.cpp"
+#line 5958 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1146 "bison_parser.y"
+#line 1147 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -5966,23 +5967,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 5970 "bison_parser.cpp"
+#line 5971 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1154 "bison_parser.y"
+#line 1155 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 5976 "bison_parser.cpp"
+#line 5977 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1155 "bison_parser.y"
+#line 1156 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 5982 "bison_parser.cpp"
+#line 5983 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1157 "bison_parser.y"
+#line 1158 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -5991,522 +5992,522 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 5995 "bison_parser.cpp"
+#line 5996 "bison_parser.cpp"
     break;
 
   case 188: /* operand: '(' expr ')'  */
-#line 1168 "bison_parser.y"
+#line 1169 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 6001 "bison_parser.cpp"
+#line 6002 "bison_parser.cpp"
     break;
 
   case 198: /* operand: '(' select_no_paren ')'  */
-#line 1170 "bison_parser.y"
+#line 1171 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 6009 "bison_parser.cpp"
+#line 6010 "bison_parser.cpp"
     break;
 
   case 201: /* unary_expr: '-' operand  */
-#line 1176 "bison_parser.y"
+#line 1177 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6015 "bison_parser.cpp"
+#line 6016 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: NOT operand  */
-#line 1177 "bison_parser.y"
+#line 1178 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6021 "bison_parser.cpp"
+#line 6022 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: operand ISNULL  */
-#line 1178 "bison_parser.y"
+#line 1179 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 6027 "bison_parser.cpp"
+#line 6028 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand IS NULL  */
-#line 1179 "bison_parser.y"
+#line 1180 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 6033 "bison_parser.cpp"
+#line 6034 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NOT NULL  */
-#line 1180 "bison_parser.y"
+#line 1181 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 6039 "bison_parser.cpp"
+#line 6040 "bison_parser.cpp"
     break;
 
   case 207: /* binary_expr: operand '-' operand  */
-#line 1182 "bison_parser.y"
+#line 1183 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 6045 "bison_parser.cpp"
+#line 6046 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '+' operand  */
-#line 1183 "bison_parser.y"
+#line 1184 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 6051 "bison_parser.cpp"
+#line 6052 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '/' operand  */
-#line 1184 "bison_parser.y"
+#line 1185 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 6057 "bison_parser.cpp"
+#line 6058 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '*' operand  */
-#line 1185 "bison_parser.y"
+#line 1186 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 6063 "bison_parser.cpp"
+#line 6064 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '%' operand  */
-#line 1186 "bison_parser.y"
+#line 1187 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 6069 "bison_parser.cpp"
+#line 6070 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '^' operand  */
-#line 1187 "bison_parser.y"
+#line 1188 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 6075 "bison_parser.cpp"
+#line 6076 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand LIKE operand  */
-#line 1188 "bison_parser.y"
+#line 1189 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 6081 "bison_parser.cpp"
+#line 6082 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand NOT LIKE operand  */
-#line 1189 "bison_parser.y"
+#line 1190 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 6087 "bison_parser.cpp"
+#line 6088 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand ILIKE operand  */
-#line 1190 "bison_parser.y"
+#line 1191 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 6093 "bison_parser.cpp"
+#line 6094 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand CONCAT operand  */
-#line 1191 "bison_parser.y"
+#line 1192 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 6099 "bison_parser.cpp"
+#line 6100 "bison_parser.cpp"
     break;
 
   case 217: /* logic_expr: expr AND expr  */
-#line 1193 "bison_parser.y"
+#line 1194 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 6105 "bison_parser.cpp"
+#line 6106 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr OR expr  */
-#line 1194 "bison_parser.y"
+#line 1195 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 6111 "bison_parser.cpp"
+#line 6112 "bison_parser.cpp"
     break;
 
   case 219: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1196 "bison_parser.y"
+#line 1197 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 6117 "bison_parser.cpp"
+#line 6118 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1197 "bison_parser.y"
+#line 1198 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 6123 "bison_parser.cpp"
+#line 6124 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1198 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 6129 "bison_parser.cpp"
+#line 6130 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1199 "bison_parser.y"
+#line 1200 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 6135 "bison_parser.cpp"
+#line 6136 "bison_parser.cpp"
     break;
 
   case 223: /* case_expr: CASE expr case_list END  */
-#line 1203 "bison_parser.y"
+#line 1204 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 6141 "bison_parser.cpp"
+#line 6142 "bison_parser.cpp"
     break;
 
   case 224: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1204 "bison_parser.y"
+#line 1205 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6147 "bison_parser.cpp"
+#line 6148 "bison_parser.cpp"
     break;
 
   case 225: /* case_expr: CASE case_list END  */
-#line 1205 "bison_parser.y"
+#line 1206 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 6153 "bison_parser.cpp"
+#line 6154 "bison_parser.cpp"
     break;
 
   case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1206 "bison_parser.y"
+#line 1207 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6159 "bison_parser.cpp"
+#line 6160 "bison_parser.cpp"
     break;
 
   case 227: /* case_list: WHEN expr THEN expr  */
-#line 1208 "bison_parser.y"
+#line 1209 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6165 "bison_parser.cpp"
+#line 6166 "bison_parser.cpp"
     break;
 
   case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1209 "bison_parser.y"
+#line 1210 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6171 "bison_parser.cpp"
+#line 6172 "bison_parser.cpp"
     break;
 
   case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1211 "bison_parser.y"
+#line 1212 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 6177 "bison_parser.cpp"
+#line 6178 "bison_parser.cpp"
     break;
 
   case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1212 "bison_parser.y"
+#line 1213 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 6183 "bison_parser.cpp"
+#line 6184 "bison_parser.cpp"
     break;
 
   case 231: /* comp_expr: operand '=' operand  */
-#line 1214 "bison_parser.y"
+#line 1215 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6189 "bison_parser.cpp"
+#line 6190 "bison_parser.cpp"
     break;
 
   case 232: /* comp_expr: operand EQUALS operand  */
-#line 1215 "bison_parser.y"
+#line 1216 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6195 "bison_parser.cpp"
+#line 6196 "bison_parser.cpp"
     break;
 
   case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1216 "bison_parser.y"
+#line 1217 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 6201 "bison_parser.cpp"
+#line 6202 "bison_parser.cpp"
     break;
 
   case 234: /* comp_expr: operand '<' operand  */
-#line 1217 "bison_parser.y"
+#line 1218 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 6207 "bison_parser.cpp"
+#line 6208 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '>' operand  */
-#line 1218 "bison_parser.y"
+#line 1219 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 6213 "bison_parser.cpp"
+#line 6214 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1219 "bison_parser.y"
+#line 1220 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 6219 "bison_parser.cpp"
+#line 6220 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1220 "bison_parser.y"
+#line 1221 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 6225 "bison_parser.cpp"
+#line 6226 "bison_parser.cpp"
     break;
 
   case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1224 "bison_parser.y"
+#line 1225 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6231 "bison_parser.cpp"
+#line 6232 "bison_parser.cpp"
     break;
 
   case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1225 "bison_parser.y"
+#line 1226 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6237 "bison_parser.cpp"
+#line 6238 "bison_parser.cpp"
     break;
 
   case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1226 "bison_parser.y"
+#line 1227 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6243 "bison_parser.cpp"
+#line 6244 "bison_parser.cpp"
     break;
 
   case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1227 "bison_parser.y"
+#line 1228 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6249 "bison_parser.cpp"
+#line 6250 "bison_parser.cpp"
     break;
 
   case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1231 "bison_parser.y"
+#line 1232 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 6255 "bison_parser.cpp"
+#line 6256 "bison_parser.cpp"
     break;
 
   case 243: /* opt_window: %empty  */
-#line 1232 "bison_parser.y"
+#line 1233 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 6261 "bison_parser.cpp"
+#line 6262 "bison_parser.cpp"
     break;
 
   case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1234 "bison_parser.y"
+#line 1235 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 6267 "bison_parser.cpp"
+#line 6268 "bison_parser.cpp"
     break;
 
   case 245: /* opt_partition: %empty  */
-#line 1235 "bison_parser.y"
+#line 1236 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 6273 "bison_parser.cpp"
+#line 6274 "bison_parser.cpp"
     break;
 
   case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1240 "bison_parser.y"
+#line 1241 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 6279 "bison_parser.cpp"
+#line 6280 "bison_parser.cpp"
     break;
 
   case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1241 "bison_parser.y"
+#line 1242 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 6285 "bison_parser.cpp"
+#line 6286 "bison_parser.cpp"
     break;
 
   case 248: /* opt_frame_clause: %empty  */
-#line 1242 "bison_parser.y"
+#line 1243 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 6293 "bison_parser.cpp"
+#line 6294 "bison_parser.cpp"
     break;
 
   case 249: /* frame_type: RANGE  */
-#line 1246 "bison_parser.y"
+#line 1247 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 6299 "bison_parser.cpp"
+#line 6300 "bison_parser.cpp"
     break;
 
   case 250: /* frame_type: ROWS  */
-#line 1247 "bison_parser.y"
+#line 1248 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 6305 "bison_parser.cpp"
+#line 6306 "bison_parser.cpp"
     break;
 
   case 251: /* frame_type: GROUPS  */
-#line 1248 "bison_parser.y"
+#line 1249 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 6311 "bison_parser.cpp"
+#line 6312 "bison_parser.cpp"
     break;
 
   case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1250 "bison_parser.y"
+#line 1251 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 6317 "bison_parser.cpp"
+#line 6318 "bison_parser.cpp"
     break;
 
   case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1251 "bison_parser.y"
+#line 1252 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 6323 "bison_parser.cpp"
+#line 6324 "bison_parser.cpp"
     break;
 
   case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1252 "bison_parser.y"
+#line 1253 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 6329 "bison_parser.cpp"
+#line 6330 "bison_parser.cpp"
     break;
 
   case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1253 "bison_parser.y"
+#line 1254 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 6335 "bison_parser.cpp"
+#line 6336 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: CURRENT_ROW  */
-#line 1254 "bison_parser.y"
+#line 1255 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 6341 "bison_parser.cpp"
+#line 6342 "bison_parser.cpp"
     break;
 
   case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1256 "bison_parser.y"
+#line 1257 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 6347 "bison_parser.cpp"
+#line 6348 "bison_parser.cpp"
     break;
 
   case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1258 "bison_parser.y"
+#line 1259 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 6353 "bison_parser.cpp"
+#line 6354 "bison_parser.cpp"
     break;
 
   case 259: /* datetime_field: SECOND  */
-#line 1260 "bison_parser.y"
+#line 1261 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6359 "bison_parser.cpp"
+#line 6360 "bison_parser.cpp"
     break;
 
   case 260: /* datetime_field: MINUTE  */
-#line 1261 "bison_parser.y"
+#line 1262 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6365 "bison_parser.cpp"
+#line 6366 "bison_parser.cpp"
     break;
 
   case 261: /* datetime_field: HOUR  */
-#line 1262 "bison_parser.y"
+#line 1263 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 6371 "bison_parser.cpp"
+#line 6372 "bison_parser.cpp"
     break;
 
   case 262: /* datetime_field: DAY  */
-#line 1263 "bison_parser.y"
+#line 1264 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 6377 "bison_parser.cpp"
+#line 6378 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: MONTH  */
-#line 1264 "bison_parser.y"
+#line 1265 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6383 "bison_parser.cpp"
+#line 6384 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: YEAR  */
-#line 1265 "bison_parser.y"
+#line 1266 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 6389 "bison_parser.cpp"
+#line 6390 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field_plural: SECONDS  */
-#line 1267 "bison_parser.y"
+#line 1268 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6395 "bison_parser.cpp"
+#line 6396 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field_plural: MINUTES  */
-#line 1268 "bison_parser.y"
+#line 1269 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6401 "bison_parser.cpp"
+#line 6402 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field_plural: HOURS  */
-#line 1269 "bison_parser.y"
+#line 1270 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 6407 "bison_parser.cpp"
+#line 6408 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field_plural: DAYS  */
-#line 1270 "bison_parser.y"
+#line 1271 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 6413 "bison_parser.cpp"
+#line 6414 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: MONTHS  */
-#line 1271 "bison_parser.y"
+#line 1272 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6419 "bison_parser.cpp"
+#line 6420 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: YEARS  */
-#line 1272 "bison_parser.y"
+#line 1273 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 6425 "bison_parser.cpp"
+#line 6426 "bison_parser.cpp"
     break;
 
   case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1276 "bison_parser.y"
+#line 1277 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 6431 "bison_parser.cpp"
+#line 6432 "bison_parser.cpp"
     break;
 
   case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1278 "bison_parser.y"
+#line 1279 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 6440 "bison_parser.cpp"
+#line 6441 "bison_parser.cpp"
     break;
 
   case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1283 "bison_parser.y"
+#line 1284 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 6446 "bison_parser.cpp"
+#line 6447 "bison_parser.cpp"
     break;
 
   case 276: /* column_name: IDENTIFIER  */
-#line 1285 "bison_parser.y"
+#line 1286 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 6452 "bison_parser.cpp"
+#line 6453 "bison_parser.cpp"
     break;
 
   case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1286 "bison_parser.y"
+#line 1287 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 6458 "bison_parser.cpp"
+#line 6459 "bison_parser.cpp"
     break;
 
   case 278: /* column_name: '*'  */
-#line 1287 "bison_parser.y"
+#line 1288 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 6464 "bison_parser.cpp"
+#line 6465 "bison_parser.cpp"
     break;
 
   case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1288 "bison_parser.y"
+#line 1289 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 6470 "bison_parser.cpp"
+#line 6471 "bison_parser.cpp"
     break;
 
   case 287: /* string_literal: STRING  */
-#line 1292 "bison_parser.y"
+#line 1293 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 6476 "bison_parser.cpp"
+#line 6477 "bison_parser.cpp"
     break;
 
   case 288: /* bool_literal: TRUE  */
-#line 1294 "bison_parser.y"
+#line 1295 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 6482 "bison_parser.cpp"
+#line 6483 "bison_parser.cpp"
     break;
 
   case 289: /* bool_literal: FALSE  */
-#line 1295 "bison_parser.y"
+#line 1296 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 6488 "bison_parser.cpp"
+#line 6489 "bison_parser.cpp"
     break;
 
   case 290: /* num_literal: FLOATVAL  */
-#line 1297 "bison_parser.y"
+#line 1298 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 6494 "bison_parser.cpp"
+#line 6495 "bison_parser.cpp"
     break;
 
   case 292: /* int_literal: INTVAL  */
-#line 1300 "bison_parser.y"
+#line 1301 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 6500 "bison_parser.cpp"
+#line 6501 "bison_parser.cpp"
     break;
 
   case 293: /* null_literal: NULL  */
-#line 1302 "bison_parser.y"
+#line 1303 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 6506 "bison_parser.cpp"
+#line 6507 "bison_parser.cpp"
     break;
 
   case 294: /* date_literal: DATE STRING  */
-#line 1304 "bison_parser.y"
+#line 1305 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -6517,17 +6518,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 6521 "bison_parser.cpp"
+#line 6522 "bison_parser.cpp"
     break;
 
   case 295: /* interval_literal: INTVAL duration_field  */
-#line 1315 "bison_parser.y"
+#line 1316 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 6527 "bison_parser.cpp"
+#line 6528 "bison_parser.cpp"
     break;
 
   case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1316 "bison_parser.y"
+#line 1317 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -6539,11 +6540,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 6543 "bison_parser.cpp"
+#line 6544 "bison_parser.cpp"
     break;
 
   case 297: /* interval_literal: INTERVAL STRING  */
-#line 1327 "bison_parser.y"
+#line 1328 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -6575,61 +6576,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 6579 "bison_parser.cpp"
+#line 6580 "bison_parser.cpp"
     break;
 
   case 298: /* param_expr: '?'  */
-#line 1359 "bison_parser.y"
+#line 1360 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
-  (yyval.expr)->ival2 = yyloc.param_list.size();
-  yyloc.param_list.push_back((yyval.expr));
+  (yyval.expr)->ival2 = yylloc.param_list->size();
+  yylloc.param_list->push_back((yyval.expr));
 }
-#line 6589 "bison_parser.cpp"
+#line 6590 "bison_parser.cpp"
     break;
 
   case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1368 "bison_parser.y"
+#line 1369 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 6600 "bison_parser.cpp"
+#line 6601 "bison_parser.cpp"
     break;
 
   case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1377 "bison_parser.y"
+#line 1378 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6611 "bison_parser.cpp"
+#line 6612 "bison_parser.cpp"
     break;
 
   case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1384 "bison_parser.y"
+#line 1385 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 6620 "bison_parser.cpp"
+#line 6621 "bison_parser.cpp"
     break;
 
   case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1388 "bison_parser.y"
+#line 1389 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 6629 "bison_parser.cpp"
+#line 6630 "bison_parser.cpp"
     break;
 
   case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1393 "bison_parser.y"
+#line 1394 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -6637,215 +6638,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6641 "bison_parser.cpp"
+#line 6642 "bison_parser.cpp"
     break;
 
   case 308: /* table_ref_name_no_alias: table_name  */
-#line 1401 "bison_parser.y"
+#line 1402 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 6651 "bison_parser.cpp"
+#line 6652 "bison_parser.cpp"
     break;
 
   case 309: /* table_name: IDENTIFIER  */
-#line 1407 "bison_parser.y"
+#line 1408 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6660 "bison_parser.cpp"
+#line 6661 "bison_parser.cpp"
     break;
 
   case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1411 "bison_parser.y"
+#line 1412 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6669 "bison_parser.cpp"
+#line 6670 "bison_parser.cpp"
     break;
 
   case 311: /* opt_index_name: IDENTIFIER  */
-#line 1416 "bison_parser.y"
+#line 1417 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 6675 "bison_parser.cpp"
+#line 6676 "bison_parser.cpp"
     break;
 
   case 312: /* opt_index_name: %empty  */
-#line 1417 "bison_parser.y"
+#line 1418 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 6681 "bison_parser.cpp"
+#line 6682 "bison_parser.cpp"
     break;
 
   case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1419 "bison_parser.y"
+#line 1420 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 6687 "bison_parser.cpp"
+#line 6688 "bison_parser.cpp"
     break;
 
   case 316: /* opt_table_alias: %empty  */
-#line 1421 "bison_parser.y"
+#line 1422 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 6693 "bison_parser.cpp"
+#line 6694 "bison_parser.cpp"
     break;
 
   case 317: /* alias: AS IDENTIFIER  */
-#line 1423 "bison_parser.y"
+#line 1424 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6699 "bison_parser.cpp"
+#line 6700 "bison_parser.cpp"
     break;
 
   case 318: /* alias: IDENTIFIER  */
-#line 1424 "bison_parser.y"
+#line 1425 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6705 "bison_parser.cpp"
+#line 6706 "bison_parser.cpp"
     break;
 
   case 320: /* opt_alias: %empty  */
-#line 1426 "bison_parser.y"
+#line 1427 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 6711 "bison_parser.cpp"
+#line 6712 "bison_parser.cpp"
     break;
 
   case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1432 "bison_parser.y"
+#line 1433 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 6717 "bison_parser.cpp"
+#line 6718 "bison_parser.cpp"
     break;
 
   case 322: /* opt_locking_clause: %empty  */
-#line 1433 "bison_parser.y"
+#line 1434 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 6723 "bison_parser.cpp"
+#line 6724 "bison_parser.cpp"
     break;
 
   case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1435 "bison_parser.y"
+#line 1436 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 6732 "bison_parser.cpp"
+#line 6733 "bison_parser.cpp"
     break;
 
   case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1439 "bison_parser.y"
+#line 1440 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 6741 "bison_parser.cpp"
+#line 6742 "bison_parser.cpp"
     break;
 
   case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1444 "bison_parser.y"
+#line 1445 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 6752 "bison_parser.cpp"
+#line 6753 "bison_parser.cpp"
     break;
 
   case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1450 "bison_parser.y"
+#line 1451 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 6763 "bison_parser.cpp"
+#line 6764 "bison_parser.cpp"
     break;
 
   case 327: /* row_lock_mode: UPDATE  */
-#line 1457 "bison_parser.y"
+#line 1458 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 6769 "bison_parser.cpp"
+#line 6770 "bison_parser.cpp"
     break;
 
   case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1458 "bison_parser.y"
+#line 1459 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 6775 "bison_parser.cpp"
+#line 6776 "bison_parser.cpp"
     break;
 
   case 329: /* row_lock_mode: SHARE  */
-#line 1459 "bison_parser.y"
+#line 1460 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 6781 "bison_parser.cpp"
+#line 6782 "bison_parser.cpp"
     break;
 
   case 330: /* row_lock_mode: KEY SHARE  */
-#line 1460 "bison_parser.y"
+#line 1461 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 6787 "bison_parser.cpp"
+#line 6788 "bison_parser.cpp"
     break;
 
   case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1462 "bison_parser.y"
+#line 1463 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 6793 "bison_parser.cpp"
+#line 6794 "bison_parser.cpp"
     break;
 
   case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1463 "bison_parser.y"
+#line 1464 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 6799 "bison_parser.cpp"
+#line 6800 "bison_parser.cpp"
     break;
 
   case 333: /* opt_row_lock_policy: %empty  */
-#line 1464 "bison_parser.y"
+#line 1465 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 6805 "bison_parser.cpp"
+#line 6806 "bison_parser.cpp"
     break;
 
   case 335: /* opt_with_clause: %empty  */
-#line 1470 "bison_parser.y"
+#line 1471 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 6811 "bison_parser.cpp"
+#line 6812 "bison_parser.cpp"
     break;
 
   case 336: /* with_clause: WITH with_description_list  */
-#line 1472 "bison_parser.y"
+#line 1473 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 6817 "bison_parser.cpp"
+#line 6818 "bison_parser.cpp"
     break;
 
   case 337: /* with_description_list: with_description  */
-#line 1474 "bison_parser.y"
+#line 1475 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 6826 "bison_parser.cpp"
+#line 6827 "bison_parser.cpp"
     break;
 
   case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1478 "bison_parser.y"
+#line 1479 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 6835 "bison_parser.cpp"
+#line 6836 "bison_parser.cpp"
     break;
 
   case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1483 "bison_parser.y"
+#line 1484 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 6845 "bison_parser.cpp"
+#line 6846 "bison_parser.cpp"
     break;
 
   case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1493 "bison_parser.y"
+#line 1494 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6853,11 +6854,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 6857 "bison_parser.cpp"
+#line 6858 "bison_parser.cpp"
     break;
 
   case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1500 "bison_parser.y"
+#line 1501 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6866,11 +6867,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 6870 "bison_parser.cpp"
+#line 6871 "bison_parser.cpp"
     break;
 
   case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1508 "bison_parser.y"
+#line 1509 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6879,101 +6880,101 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 6883 "bison_parser.cpp"
+#line 6884 "bison_parser.cpp"
     break;
 
   case 343: /* opt_join_type: INNER  */
-#line 1517 "bison_parser.y"
+#line 1518 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 6889 "bison_parser.cpp"
+#line 6890 "bison_parser.cpp"
     break;
 
   case 344: /* opt_join_type: LEFT OUTER  */
-#line 1518 "bison_parser.y"
+#line 1519 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 6895 "bison_parser.cpp"
+#line 6896 "bison_parser.cpp"
     break;
 
   case 345: /* opt_join_type: LEFT  */
-#line 1519 "bison_parser.y"
+#line 1520 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 6901 "bison_parser.cpp"
+#line 6902 "bison_parser.cpp"
     break;
 
   case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1520 "bison_parser.y"
+#line 1521 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 6907 "bison_parser.cpp"
+#line 6908 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: RIGHT  */
-#line 1521 "bison_parser.y"
+#line 1522 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 6913 "bison_parser.cpp"
+#line 6914 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: FULL OUTER  */
-#line 1522 "bison_parser.y"
+#line 1523 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 6919 "bison_parser.cpp"
+#line 6920 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: OUTER  */
-#line 1523 "bison_parser.y"
+#line 1524 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 6925 "bison_parser.cpp"
+#line 6926 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: FULL  */
-#line 1524 "bison_parser.y"
+#line 1525 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 6931 "bison_parser.cpp"
+#line 6932 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: CROSS  */
-#line 1525 "bison_parser.y"
+#line 1526 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 6937 "bison_parser.cpp"
+#line 6938 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: %empty  */
-#line 1526 "bison_parser.y"
+#line 1527 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 6943 "bison_parser.cpp"
+#line 6944 "bison_parser.cpp"
     break;
 
   case 354: /* opt_semicolon: ';'  */
-#line 1534 "bison_parser.y"
+#line 1535 "bison_parser.y"
                     { (yyloc).total_column = (yylsp[0]).total_column; }
-#line 6949 "bison_parser.cpp"
+#line 6950 "bison_parser.cpp"
     break;
 
   case 355: /* opt_semicolon: %empty  */
-#line 1535 "bison_parser.y"
+#line 1536 "bison_parser.y"
                                                     { (yyloc).total_column = yylloc.total_column; }
-#line 6955 "bison_parser.cpp"
+#line 6956 "bison_parser.cpp"
     break;
 
   case 356: /* ident_commalist: IDENTIFIER  */
-#line 1537 "bison_parser.y"
+#line 1538 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 6964 "bison_parser.cpp"
+#line 6965 "bison_parser.cpp"
     break;
 
   case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1541 "bison_parser.y"
+#line 1542 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 6973 "bison_parser.cpp"
+#line 6974 "bison_parser.cpp"
     break;
 
 
-#line 6977 "bison_parser.cpp"
+#line 6978 "bison_parser.cpp"
 
       default: break;
     }
@@ -7202,7 +7203,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1547 "bison_parser.y"
+#line 1548 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index 712dd08..71167fd 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -273,7 +273,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 104 "bison_parser.y"
+#line 105 "bison_parser.y"
 
   // clang-format on
   bool bval;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index bcbd906..7842f7c 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -88,6 +88,7 @@
   @$.first_line = 0;
   @$.last_line = 0;
   @$.total_column = 0;
+  @$.param_list = std::make_shared<std::vector<void*>>();
 };
 
 
@@ -395,7 +396,7 @@ input : statement_list opt_semicolon {
   }
 
   unsigned param_id = 0;
-  for (void* param : yyloc.param_list) {
+  for (void* param : *yylloc.param_list) {
     if (param) {
       Expr* expr = (Expr*)param;
       expr->ival = param_id;
@@ -1358,8 +1359,8 @@ interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2
 
 param_expr : '?' {
   $$ = Expr::makeParameter(yylloc.total_column);
-  $$->ival2 = yyloc.param_list.size();
-  yyloc.param_list.push_back($$);
+  $$->ival2 = yylloc.param_list->size();
+  yylloc.param_list->push_back($$);
 };
 
 /******************************
diff --git a/src/parser/parser_typedef.h b/src/parser/parser_typedef.h
index 7b5d439..f22965e 100644
--- a/src/parser/parser_typedef.h
+++ b/src/parser/parser_typedef.h
@@ -1,6 +1,7 @@
 #ifndef __PARSER_TYPEDEF_H__
 #define __PARSER_TYPEDEF_H__
 
+#include <memory>
 #include <vector>
 
 #ifndef YYtypeDEF_YY_SCANNER_T
@@ -19,9 +20,9 @@ struct HSQL_CUST_LTYPE {
 
   int total_column;
 
-  // Parameters.
+  // Parameters. All locations of a parse share the list.
   // int param_id;
-  std::vector<void*> param_list;
+  std::shared_ptr<std::vector<void*>> param_list;
 };
 
 #define HSQL_LTYPE HSQL_CUST_LTYPE
-- 
2.43.0


From 1e8e0d0ff8d65dedd51a823161b6d41765843a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 18/25] fix: do not recurse along operator and join chains when
 deleting them

A chain of a million operators, array accesses or joins is parsed with bounded
stack, but deleting it overflowed the stack.
---
 src/sql/Expr.cpp       |  9 ++++++++-
 src/sql/statements.cpp | 12 +++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/sql/Expr.cpp b/src/sql/Expr.cpp
index a553121..83c6b70 100644
--- a/src/sql/Expr.cpp
+++ b/src/sql/Expr.cpp
@@ -62,7 +62,14 @@ Expr::Expr(ExprType type)
       windowDescription(nullptr) {}
 
 Expr::~Expr() {
-  delete expr;
+  // Chains of left-associative operators can be arbitrarily long. Do not recurse along them.
+  while (expr) {
+    Expr* next = expr->expr;
+    expr->expr = nullptr;
+    delete expr;
+    expr = next;
+  }
+
   delete expr2;
   delete select;
   delete windowDescription;
diff --git a/src/sql/statements.cpp b/src/sql/statements.cpp
index 69cfc70..c9e6f99 100644
--- a/src/sql/statements.cpp
+++ b/src/sql/statements.cpp
@@ -411,7 +411,17 @@ JoinDefinition::JoinDefinition()
     : left(nullptr), right(nullptr), condition(nullptr), namedColumns(nullptr), type(kJoinInner) {}
 
 JoinDefinition::~JoinDefinition() {
-  delete left;
+  // Chains of joins can be arbitrarily long. Do not recurse along them.
+  while (left) {
+    TableRef* next = nullptr;
+    if (left->join) {
+      next = left->join->left;
+      left->join->left = nullptr;
+    }
+    delete left;
+    left = next;
+  }
+
   delete right;
   delete condition;
 
-- 
2.43.0


From 94a91d08744dcc07b89223a6e1e5137a060af06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 19/25] fix: apply a prefix NOT to the IN or BETWEEN predicate
 that follows it

NOT a IN (1) was parsed as (NOT a) IN (1), unlike NOT a = 1 and NOT a LIKE b.
---
 src/parser/bison_parser.cpp | 4507 ++++++++++++++++++-----------------
 src/parser/bison_parser.y   |   11 +-
 2 files changed, 2305 insertions(+), 2213 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 0881d12..9c3172c 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -414,60 +414,61 @@ enum yysymbol_kind_t
   YYSYMBOL_binary_expr = 278,              /* binary_expr  */
   YYSYMBOL_logic_expr = 279,               /* logic_expr  */
   YYSYMBOL_in_expr = 280,                  /* in_expr  */
-  YYSYMBOL_case_expr = 281,                /* case_expr  */
-  YYSYMBOL_case_list = 282,                /* case_list  */
-  YYSYMBOL_exists_expr = 283,              /* exists_expr  */
-  YYSYMBOL_comp_expr = 284,                /* comp_expr  */
-  YYSYMBOL_function_expr = 285,            /* function_expr  */
-  YYSYMBOL_opt_window = 286,               /* opt_window  */
-  YYSYMBOL_opt_partition = 287,            /* opt_partition  */
-  YYSYMBOL_opt_frame_clause = 288,         /* opt_frame_clause  */
-  YYSYMBOL_frame_type = 289,               /* frame_type  */
-  YYSYMBOL_frame_bound = 290,              /* frame_bound  */
-  YYSYMBOL_extract_expr = 291,             /* extract_expr  */
-  YYSYMBOL_cast_expr = 292,                /* cast_expr  */
-  YYSYMBOL_datetime_field = 293,           /* datetime_field  */
-  YYSYMBOL_datetime_field_plural = 294,    /* datetime_field_plural  */
-  YYSYMBOL_duration_field = 295,           /* duration_field  */
-  YYSYMBOL_array_expr = 296,               /* array_expr  */
-  YYSYMBOL_array_index = 297,              /* array_index  */
-  YYSYMBOL_between_expr = 298,             /* between_expr  */
-  YYSYMBOL_column_name = 299,              /* column_name  */
-  YYSYMBOL_literal = 300,                  /* literal  */
-  YYSYMBOL_string_literal = 301,           /* string_literal  */
-  YYSYMBOL_bool_literal = 302,             /* bool_literal  */
-  YYSYMBOL_num_literal = 303,              /* num_literal  */
-  YYSYMBOL_int_literal = 304,              /* int_literal  */
-  YYSYMBOL_null_literal = 305,             /* null_literal  */
-  YYSYMBOL_date_literal = 306,             /* date_literal  */
-  YYSYMBOL_interval_literal = 307,         /* interval_literal  */
-  YYSYMBOL_param_expr = 308,               /* param_expr  */
-  YYSYMBOL_table_ref = 309,                /* table_ref  */
-  YYSYMBOL_table_ref_atomic = 310,         /* table_ref_atomic  */
-  YYSYMBOL_nonjoin_table_ref_atomic = 311, /* nonjoin_table_ref_atomic  */
-  YYSYMBOL_table_ref_commalist = 312,      /* table_ref_commalist  */
-  YYSYMBOL_table_ref_name = 313,           /* table_ref_name  */
-  YYSYMBOL_table_ref_name_no_alias = 314,  /* table_ref_name_no_alias  */
-  YYSYMBOL_table_name = 315,               /* table_name  */
-  YYSYMBOL_opt_index_name = 316,           /* opt_index_name  */
-  YYSYMBOL_table_alias = 317,              /* table_alias  */
-  YYSYMBOL_opt_table_alias = 318,          /* opt_table_alias  */
-  YYSYMBOL_alias = 319,                    /* alias  */
-  YYSYMBOL_opt_alias = 320,                /* opt_alias  */
-  YYSYMBOL_opt_locking_clause = 321,       /* opt_locking_clause  */
-  YYSYMBOL_opt_locking_clause_list = 322,  /* opt_locking_clause_list  */
-  YYSYMBOL_locking_clause = 323,           /* locking_clause  */
-  YYSYMBOL_row_lock_mode = 324,            /* row_lock_mode  */
-  YYSYMBOL_opt_row_lock_policy = 325,      /* opt_row_lock_policy  */
-  YYSYMBOL_opt_with_clause = 326,          /* opt_with_clause  */
-  YYSYMBOL_with_clause = 327,              /* with_clause  */
-  YYSYMBOL_with_description_list = 328,    /* with_description_list  */
-  YYSYMBOL_with_description = 329,         /* with_description  */
-  YYSYMBOL_join_clause = 330,              /* join_clause  */
-  YYSYMBOL_opt_join_type = 331,            /* opt_join_type  */
-  YYSYMBOL_join_condition = 332,           /* join_condition  */
-  YYSYMBOL_opt_semicolon = 333,            /* opt_semicolon  */
-  YYSYMBOL_ident_commalist = 334           /* ident_commalist  */
+  YYSYMBOL_not_expr = 281,                 /* not_expr  */
+  YYSYMBOL_case_expr = 282,                /* case_expr  */
+  YYSYMBOL_case_list = 283,                /* case_list  */
+  YYSYMBOL_exists_expr = 284,              /* exists_expr  */
+  YYSYMBOL_comp_expr = 285,                /* comp_expr  */
+  YYSYMBOL_function_expr = 286,            /* function_expr  */
+  YYSYMBOL_opt_window = 287,               /* opt_window  */
+  YYSYMBOL_opt_partition = 288,            /* opt_partition  */
+  YYSYMBOL_opt_frame_clause = 289,         /* opt_frame_clause  */
+  YYSYMBOL_frame_type = 290,               /* frame_type  */
+  YYSYMBOL_frame_bound = 291,              /* frame_bound  */
+  YYSYMBOL_extract_expr = 292,             /* extract_expr  */
+  YYSYMBOL_cast_expr = 293,                /* cast_expr  */
+  YYSYMBOL_datetime_field = 294,           /* datetime_field  */
+  YYSYMBOL_datetime_field_plural = 295,    /* datetime_field_plural  */
+  YYSYMBOL_duration_field = 296,           /* duration_field  */
+  YYSYMBOL_array_expr = 297,               /* array_expr  */
+  YYSYMBOL_array_index = 298,              /* array_index  */
+  YYSYMBOL_between_expr = 299,             /* between_expr  */
+  YYSYMBOL_column_name = 300,              /* column_name  */
+  YYSYMBOL_literal = 301,                  /* literal  */
+  YYSYMBOL_string_literal = 302,           /* string_literal  */
+  YYSYMBOL_bool_literal = 303,             /* bool_literal  */
+  YYSYMBOL_num_literal = 304,              /* num_literal  */
+  YYSYMBOL_int_literal = 305,              /* int_literal  */
+  YYSYMBOL_null_literal = 306,             /* null_literal  */
+  YYSYMBOL_date_literal = 307,             /* date_literal  */
+  YYSYMBOL_interval_literal = 308,         /* interval_literal  */
+  YYSYMBOL_param_expr = 309,               /* param_expr  */
+  YYSYMBOL_table_ref = 310,                /* table_ref  */
+  YYSYMBOL_table_ref_atomic = 311,         /* table_ref_atomic  */
+  YYSYMBOL_nonjoin_table_ref_atomic = 312, /* nonjoin_table_ref_atomic  */
+  YYSYMBOL_table_ref_commalist = 313,      /* table_ref_commalist  */
+  YYSYMBOL_table_ref_name = 314,           /* table_ref_name  */
+  YYSYMBOL_table_ref_name_no_alias = 315,  /* table_ref_name_no_alias  */
+  YYSYMBOL_table_name = 316,               /* table_name  */
+  YYSYMBOL_opt_index_name = 317,           /* opt_index_name  */
+  YYSYMBOL_table_alias = 318,              /* table_alias  */
+  YYSYMBOL_opt_table_alias = 319,          /* opt_table_alias  */
+  YYSYMBOL_alias = 320,                    /* alias  */
+  YYSYMBOL_opt_alias = 321,                /* opt_alias  */
+  YYSYMBOL_opt_locking_clause = 322,       /* opt_locking_clause  */
+  YYSYMBOL_opt_locking_clause_list = 323,  /* opt_locking_clause_list  */
+  YYSYMBOL_locking_clause = 324,           /* locking_clause  */
+  YYSYMBOL_row_lock_mode = 325,            /* row_lock_mode  */
+  YYSYMBOL_opt_row_lock_policy = 326,      /* opt_row_lock_policy  */
+  YYSYMBOL_opt_with_clause = 327,          /* opt_with_clause  */
+  YYSYMBOL_with_clause = 328,              /* with_clause  */
+  YYSYMBOL_with_description_list = 329,    /* with_description_list  */
+  YYSYMBOL_with_description = 330,         /* with_description  */
+  YYSYMBOL_join_clause = 331,              /* join_clause  */
+  YYSYMBOL_opt_join_type = 332,            /* opt_join_type  */
+  YYSYMBOL_join_condition = 333,           /* join_condition  */
+  YYSYMBOL_opt_semicolon = 334,            /* opt_semicolon  */
+  YYSYMBOL_ident_commalist = 335           /* ident_commalist  */
 };
 typedef enum yysymbol_kind_t yysymbol_kind_t;
 
@@ -798,16 +799,16 @@ union yyalloc
 /* YYFINAL -- State number of the termination state.  */
 #define YYFINAL  69
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   6326
+#define YYLAST   6605
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  199
 /* YYNNTS -- Number of nonterminals.  */
-#define YYNNTS  136
+#define YYNNTS  137
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  357
+#define YYNRULES  361
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  656
+#define YYNSTATES  662
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   436
@@ -892,24 +893,25 @@ static const yytype_int16 yyrline[] =
     1062,  1064,  1065,  1067,  1068,  1070,  1074,  1079,  1081,  1082,
     1083,  1085,  1086,  1108,  1109,  1111,  1112,  1113,  1114,  1115,
     1116,  1121,  1125,  1131,  1132,  1134,  1138,  1143,  1143,  1147,
-    1155,  1156,  1158,  1167,  1167,  1167,  1167,  1167,  1169,  1170,
-    1170,  1170,  1170,  1170,  1170,  1170,  1170,  1171,  1171,  1175,
-    1175,  1177,  1178,  1179,  1180,  1181,  1183,  1183,  1184,  1185,
-    1186,  1187,  1188,  1189,  1190,  1191,  1192,  1194,  1195,  1197,
-    1198,  1199,  1200,  1204,  1205,  1206,  1207,  1209,  1210,  1212,
-    1213,  1215,  1216,  1217,  1218,  1219,  1220,  1221,  1225,  1226,
-    1227,  1228,  1232,  1233,  1235,  1236,  1241,  1242,  1243,  1247,
-    1248,  1249,  1251,  1252,  1253,  1254,  1255,  1257,  1259,  1261,
-    1262,  1263,  1264,  1265,  1266,  1268,  1269,  1270,  1271,  1272,
-    1273,  1275,  1275,  1277,  1279,  1284,  1286,  1287,  1288,  1289,
-    1291,  1291,  1291,  1291,  1291,  1291,  1291,  1293,  1295,  1296,
-    1298,  1299,  1301,  1303,  1305,  1316,  1317,  1328,  1360,  1369,
-    1369,  1376,  1376,  1378,  1378,  1385,  1389,  1394,  1402,  1408,
-    1412,  1417,  1418,  1420,  1420,  1422,  1422,  1424,  1425,  1427,
-    1427,  1433,  1434,  1436,  1440,  1445,  1451,  1458,  1459,  1460,
-    1461,  1463,  1464,  1465,  1471,  1471,  1473,  1475,  1479,  1484,
-    1494,  1501,  1509,  1518,  1519,  1520,  1521,  1522,  1523,  1524,
-    1525,  1526,  1527,  1529,  1535,  1536,  1538,  1542
+    1155,  1156,  1158,  1167,  1167,  1167,  1167,  1167,  1167,  1169,
+    1170,  1170,  1170,  1170,  1170,  1170,  1170,  1170,  1171,  1171,
+    1175,  1175,  1177,  1178,  1179,  1180,  1181,  1183,  1183,  1184,
+    1185,  1186,  1187,  1188,  1189,  1190,  1191,  1192,  1194,  1195,
+    1197,  1198,  1199,  1200,  1203,  1204,  1205,  1209,  1210,  1211,
+    1212,  1214,  1215,  1217,  1218,  1220,  1221,  1222,  1223,  1224,
+    1225,  1226,  1230,  1231,  1232,  1233,  1237,  1238,  1240,  1241,
+    1246,  1247,  1248,  1252,  1253,  1254,  1256,  1257,  1258,  1259,
+    1260,  1262,  1264,  1266,  1267,  1268,  1269,  1270,  1271,  1273,
+    1274,  1275,  1276,  1277,  1278,  1280,  1280,  1282,  1284,  1289,
+    1291,  1292,  1293,  1294,  1296,  1296,  1296,  1296,  1296,  1296,
+    1296,  1298,  1300,  1301,  1303,  1304,  1306,  1308,  1310,  1321,
+    1322,  1333,  1365,  1374,  1374,  1381,  1381,  1383,  1383,  1390,
+    1394,  1399,  1407,  1413,  1417,  1422,  1423,  1425,  1425,  1427,
+    1427,  1429,  1430,  1432,  1432,  1438,  1439,  1441,  1445,  1450,
+    1456,  1463,  1464,  1465,  1466,  1468,  1469,  1470,  1476,  1476,
+    1478,  1480,  1484,  1489,  1499,  1506,  1514,  1523,  1524,  1525,
+    1526,  1527,  1528,  1529,  1530,  1531,  1532,  1534,  1540,  1541,
+    1543,  1547
 };
 #endif
 
@@ -975,8 +977,8 @@ static const char *const yytname[] =
   "opt_top", "opt_limit", "expr_list", "opt_extended_literal_list",
   "extended_literal_list", "casted_extended_literal", "extended_literal",
   "expr_alias", "expr", "operand", "scalar_expr", "unary_expr",
-  "binary_expr", "logic_expr", "in_expr", "case_expr", "case_list",
-  "exists_expr", "comp_expr", "function_expr", "opt_window",
+  "binary_expr", "logic_expr", "in_expr", "not_expr", "case_expr",
+  "case_list", "exists_expr", "comp_expr", "function_expr", "opt_window",
   "opt_partition", "opt_frame_clause", "frame_type", "frame_bound",
   "extract_expr", "cast_expr", "datetime_field", "datetime_field_plural",
   "duration_field", "array_expr", "array_index", "between_expr",
@@ -999,12 +1001,12 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-559)
+#define YYPACT_NINF (-507)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF (-356)
+#define YYTABLE_NINF (-360)
 
 #define yytable_value_is_error(Yyn) \
   0
@@ -1013,72 +1015,73 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-    6110,    37,    89,   116,   123,    89,   -14,     0,   162,    49,
-      89,   128,    40,    -3,    35,   266,    55,    55,    55,   290,
-      21,  -559,   155,  -559,   155,  -559,  -559,  -559,  -559,  -559,
-    -559,  -559,  -559,  -559,  -559,  -559,  -559,   -23,  -559,   292,
-    5171,  -559,    65,   228,  -559,   187,    44,    44,    89,   305,
-      89,   201,  -559,    60,   -23,   207,   -32,    60,    60,    60,
-      89,  -559,   209,   -16,  -559,  -559,  -559,  -559,  -559,  -559,
-    6087,  -559,   241,  -559,  -559,  5624,    78,  -559,  1169,  -559,
-     347,   902,   354,   247,    36,    89,    89,   384,  -559,   294,
-      10,   380,   349,    89,   212,   220,   416,   416,   416,   398,
-      89,    89,  -559,   231,   266,  -559,   237,   430,  5759,  -559,
-    -559,  -559,   -23,   -36,   356,   -23,   165,  -559,  -559,  -559,
-     371,   262,   491,  -559,   501,  -559,  -559,    54,  -559,   335,
-     -81,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,
-    -559,  -559,  -559,  -559,   485,  -559,   435,   -37,   -75,  5900,
-    -559,   416,   580,    57,   414,    69,  -559,  -559,   517,  -559,
-    -559,  -559,   206,   345,   206,  -559,  -559,  -559,  -559,  -559,
-     610,  -559,  -559,  -559,  5900,   331,  -559,  -559,  1554,  -559,
-    -559,  5900,   343,  5900,  5780,   111,  -559,  -559,  -559,  -559,
-    -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,
-    -559,  1195,  -559,   561,  -559,  -559,  -559,   968,  -559,    89,
-     611,    51,    25,   493,   751,   436,   441,   443,  5808,  5922,
-     456,  5971,  -559,  5829,  1295,  1334,  -559,  -559,  -559,  -559,
-    -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,  -559,
-    -559,  -559,   550,  -559,   118,   457,  -559,  5900,   380,  -559,
-     613,  -559,  -559,   464,   329,  -559,    27,  -559,   357,   158,
-    -559,  4844,   840,  -559,  5403,   198,   -23,   413,  -559,   185,
-     165,   473,   423,   197,   205,  -559,   385,  -559,   533,  -559,
-    -559,   483,   566,  -559,  6173,   488,   492,   499,   244,  -559,
-    -559,  -559,    51,  5645,    14,   629,   482,  5900,  5900,   479,
-     317,   502,  5971,  1524,  5900,  1714,   511,   171,  5900,  5900,
-    5971,  -559,  5971,   -21,   503,   -15,  5971,  5971,  5971,  5971,
-    5971,  5971,  5971,  5971,  5971,  5971,  5971,  5971,  5971,  5971,
-    5971,   430,    89,  -559,   708,   968,   193,  -559,    60,   329,
-     717,   723,   305,   725,   251,  -559,  -559,   968,  -559,   610,
-      42,   910,  -559,  5900,  -559,   731,  -559,  -559,  -559,  -559,
-    5900,  -559,  -559,   173,   111,  5900,  5900,  -559,   568,  -559,
-     583,   214,  -559,  6173,   580,   416,  -559,  -559,   571,  -559,
-     705,  -559,  -559,   576,  -559,  -559,   578,  -559,  -559,  -559,
-    -559,   988,  -559,  -559,  1001,   580,   579,   581,  -559,    25,
-    -559,   949,  5900,  1139,  -559,   582,   668,   280,   302,   339,
-    5900,  5900,  -559,   629,   672,    91,  -559,  -559,  4903,  5036,
-    6134,  4015,  5971,   585,  5829,  -559,   675,  1904,  4163,  4311,
-    4459,  4607,  3391,  3547,  3703,  3859,  2094,  2284,  2474,  2664,
-    2854,  3044,   588,  -559,  -559,   346,   781,   396,  -559,  -559,
-    -559,  -559,  -559,   397,   402,  -559,    51,  -559,  5492,  -559,
-     590,  -559,   160,  -559,  5101,  -559,  -559,  -559,   782,  -559,
-    -559,   522,   594,   727,  -559,   580,  -559,   631,  -559,   598,
-     406,  -559,   787,   788,  -559,   789,   791,   792,  -559,  -559,
-     696,  -559,   635,    89,  -559,  1092,  -559,  -559,   434,   580,
-     580,  -559,   608,  -559,   452,  5673,  -559,  5900,  6173,  5900,
-    5900,  -559,   453,   412,   614,  -559,  5971,  4755,  5829,   616,
-     469,  -559,  -559,  -559,  -559,  -559,   807,   305,  -559,  -559,
-     618,   714,  -559,  -559,  -559,   -29,   -17,     3,   715,    42,
-     812,  -559,  -559,  -559,   690,  -559,  -559,  -559,    53,  -559,
-    -559,  -559,   624,   471,   625,   627,   630,  -559,  -559,   994,
-    -559,  -559,  -559,   478,   497,   521,   949,   949,  5900,   210,
-     634,   596,   466,  -559,  5900,  -559,  3201,   637,   512,  -559,
-    -559,  -559,  -559,   160,    42,  -559,  -559,  -559,    42,  5543,
-    5316,  5900,  -559,  -559,  -559,   819,  -559,  -559,  -559,  -559,
-    -559,   663,   711,   410,  -559,  -559,   523,  -559,  -559,  -559,
-     649,  -559,  -559,  -559,  -559,   704,   580,   103,   644,  -559,
-    5900,   312,   949,   646,  5900,   525,  5900,  -559,  -559,   569,
-    -559,  -559,  -559,   648,    34,  -559,   580,  5277,  -559,  -559,
-    5008,  -559,   114,    24,   293,  -559,  -559,   562,  -559,  -559,
-     728,  -559,  -559,  -559,    24,  -559
+    6389,    66,    52,    58,   121,    52,     8,   107,   135,   197,
+      52,   217,    26,   378,    22,   304,   177,   177,   177,   303,
+      18,  -507,    56,  -507,    56,  -507,  -507,  -507,  -507,  -507,
+    -507,  -507,  -507,  -507,  -507,  -507,  -507,   -32,  -507,   319,
+    5364,  -507,   193,   275,  -507,   283,    36,    36,    52,   368,
+      52,   259,  -507,   126,   -32,   251,   -20,   126,   126,   126,
+      52,  -507,   263,   -35,  -507,  -507,  -507,  -507,  -507,  -507,
+    6366,  -507,   298,  -507,  -507,  5823,   336,  -507,  1172,  -507,
+     390,   580,   395,   286,    37,    52,    52,   338,  -507,   325,
+     -13,   417,   396,    52,   260,   291,   473,   473,   473,   495,
+      52,    52,  -507,   287,   304,  -507,   331,   522,  5848,  -507,
+    -507,  -507,   -32,   -34,   443,   -32,   210,  -507,  -507,  -507,
+     374,   352,   589,  -507,   594,  -507,  -507,   104,  -507,   410,
+     211,  -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,
+    -507,  -507,  -507,  -507,   565,  -507,   491,   -21,   163,  6097,
+    -507,   473,   624,   296,   474,    44,  -507,  -507,   562,  -507,
+    -507,  -507,   348,   125,   348,  -507,  -507,  -507,  -507,  -507,
+     647,  -507,  -507,  -507,  6097,   285,  -507,  -507,  1557,  -507,
+    -507,  6097,   130,  6097,  6001,   191,  -507,  -507,  -507,  -507,
+    -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,
+    -507,   633,  -507,   564,  -507,  -507,  -507,   905,  -507,    52,
+     652,    -1,    28,   536,   754,   469,   486,   504,  6019,  6192,
+     499,  6224,  -507,  6072,  5037,  1337,  -507,  -507,  -507,  -507,
+    -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,  -507,
+    -507,  -507,  -507,   569,  -507,   233,   505,  -507,  6097,   417,
+    -507,   660,  -507,  -507,   519,    48,  -507,    20,  -507,   307,
+     250,  -507,  5294,   843,  -507,   200,   300,   -32,   416,  -507,
+     115,   210,    63,   596,    62,   218,  -507,   230,  -507,   591,
+    -507,  -507,   521,   626,  -507,  6452,   527,   545,   550,   266,
+    -507,  -507,  -507,    -1,  5844,    40,   665,   655,  6097,  6097,
+     475,   323,   531,  6263,  1527,  -507,  -507,  -507,  6097,  6224,
+    1717,   535,   -45,  6097,  6097,  6224,  -507,  6224,   -42,   532,
+     -25,  6224,  6224,  6224,  6224,  6224,  6224,  6224,  6224,  6224,
+    6224,  6224,  6224,  6224,  6224,  6224,   522,    52,  -507,   730,
+     905,   105,  -507,   126,    48,   731,   732,   368,   739,   273,
+    -507,  -507,   905,  -507,   647,    34,   913,  -507,  6097,  -507,
+     741,  -507,  -507,  -507,  -507,  6097,  -507,  -507,  1180,   191,
+    6097,  6097,  -507,   575,  -507,   573,    54,  -507,  6452,   624,
+     473,  -507,  -507,   566,  -507,   707,  -507,  -507,   571,  -507,
+    -507,   574,  -507,  -507,  -507,  -507,   991,  -507,  -507,   804,
+     624,   576,   577,  -507,    28,  -507,   952,  6097,  1142,  -507,
+     572,   674,   500,   -40,   502,  6097,  6097,  -507,   665,   -86,
+    1907,   671,  -507,  -507,  5096,  5229,  6413,  4208,  6224,   582,
+    6072,  -507,   669,  2097,  4356,  4504,  4652,  4800,  3584,  3740,
+    3896,  4052,  2287,  2477,  2667,  2857,  3047,  3237,   584,  -507,
+    -507,   349,   774,   405,  -507,  -507,  -507,  -507,  -507,   327,
+     427,  -507,    -1,  -507,  5642,  -507,   590,  -507,  5470,  -507,
+    5749,  -507,  -507,  -507,   776,  -507,  -507,   346,   476,   719,
+    -507,   624,  -507,   629,  -507,   597,   429,  -507,   794,   795,
+    -507,   797,   798,   800,  -507,  -507,   703,  -507,   638,    52,
+    -507,  1004,  -507,  -507,   437,   624,   624,  -507,   619,  -507,
+     447,  5876,  -507,  6097,  6452,  6097,  6097,  -507,   415,   228,
+     620,  -507,  6224,  4948,  6072,   621,   455,  -507,  -507,  -507,
+    -507,  -507,   809,   368,  -507,  -507,   622,   718,  -507,  -507,
+    -507,   -14,    17,   242,   720,    34,   818,  -507,  -507,  -507,
+     696,  -507,  -507,  -507,    77,  -507,  -507,  -507,   630,   463,
+     635,   640,   644,  -507,  -507,   997,  -507,  -507,  -507,   472,
+     477,   524,   952,   952,  6097,   176,   645,   485,   456,  -507,
+    6097,  -507,  3394,   646,   481,  -507,  -507,  -507,  -507,  5470,
+      34,  -507,  -507,  -507,    34,  5724,  5617,  6097,  -507,  -507,
+    -507,   821,  -507,  -507,  -507,  -507,  -507,   668,   716,   363,
+    -507,  -507,   497,  -507,  -507,  -507,   670,  -507,  -507,  -507,
+    -507,   888,   624,   215,   651,  -507,  6097,   345,   952,   654,
+    6097,   514,  6097,  -507,  -507,   239,  -507,  -507,  -507,   656,
+      21,  -507,   624,  5509,  -507,  -507,  5201,  -507,    95,   149,
+     387,  -507,  -507,   516,  -507,  -507,   735,  -507,  -507,  -507,
+     149,  -507
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -1089,107 +1092,108 @@ static const yytype_int16 yydefact[] =
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     3,     0,    19,     0,    18,     8,     9,     7,    11,
-      16,    17,    13,    14,    12,    15,    10,     0,   334,     0,
+      16,    17,    13,    14,    12,    15,    10,     0,   338,     0,
        0,   114,     0,     0,    54,     0,     0,     0,     0,     0,
-       0,     0,   308,     0,     0,     0,     0,     0,     0,     0,
-       0,    52,     0,     0,   337,    29,    26,    28,    27,     1,
+       0,     0,   312,     0,     0,     0,     0,     0,     0,     0,
+       0,    52,     0,     0,   341,    29,    26,    28,    27,     1,
        0,     2,     0,     6,     5,     0,     0,   124,     0,   106,
        0,     0,     0,     0,     0,     0,     0,     0,    37,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,    53,     0,     0,     4,     0,     0,     0,   136,
-     137,   135,     0,     0,     0,     0,     0,   310,   287,   290,
-       0,     0,     0,   293,     0,   288,   289,     0,   298,     0,
-       0,   175,   177,   179,   280,   281,   282,   291,   283,   284,
-     285,   286,    32,    31,     0,   311,     0,     0,     0,     0,
+     137,   135,     0,     0,     0,     0,     0,   314,   291,   294,
+       0,     0,     0,   297,     0,   292,   293,     0,   302,     0,
+       0,   175,   177,   179,   284,   285,   286,   295,   287,   288,
+     289,   290,    32,    31,     0,   315,     0,     0,     0,     0,
      113,     0,     0,     0,     0,     0,   120,   108,     0,   131,
-     130,    38,     0,     0,     0,   107,   104,   105,   339,   338,
-       0,   292,   163,   141,     0,     0,   127,   126,     0,   138,
-     134,     0,     0,     0,     0,     0,   259,   260,   261,   262,
-     263,   264,   265,   266,   267,   268,   269,   270,   271,   272,
-     295,     0,   294,     0,   180,   181,    34,     0,    60,     0,
+     130,    38,     0,     0,     0,   107,   104,   105,   343,   342,
+       0,   296,   163,   141,     0,     0,   127,   126,     0,   138,
+     134,     0,     0,     0,     0,     0,   263,   264,   265,   266,
+     267,   268,   269,   270,   271,   272,   273,   274,   275,   276,
+     299,     0,   298,     0,   180,   181,    34,     0,    60,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   278,     0,     0,     0,   190,   191,   192,   185,
-     187,   193,   186,   206,   194,   195,   196,   197,   189,   184,
-     199,   200,     0,   356,     0,     0,   116,     0,     0,   119,
-       0,   110,   111,     0,     0,    51,     0,    50,     0,     0,
-      22,     0,     0,   171,     0,     0,     0,     0,   155,     0,
-       0,     0,     0,     0,     0,   132,     0,   323,     0,   296,
-     176,     0,     0,    57,     0,     0,     0,     0,     0,    62,
-      64,    65,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   282,     0,     0,     0,   191,   192,   193,   185,
+     187,   188,   194,   186,   207,   195,   196,   197,   198,   190,
+     184,   200,   201,     0,   360,     0,     0,   116,     0,     0,
+     119,     0,   110,   111,     0,     0,    51,     0,    50,     0,
+       0,    22,     0,     0,   171,     0,     0,     0,     0,   155,
+       0,     0,     0,     0,     0,     0,   132,     0,   327,     0,
+     300,   176,     0,     0,    57,     0,     0,     0,     0,     0,
+      62,    64,    65,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   225,   226,   224,     0,     0,
+       0,     0,     0,     0,     0,     0,   204,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,   203,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   117,     0,     0,     0,   121,     0,     0,
-       0,     0,     0,     0,     0,    47,    36,     0,    20,     0,
-       0,     0,   144,     0,   318,     0,   319,   182,   125,   129,
-       0,   159,   158,     0,     0,     0,     0,   327,     0,   329,
-       0,     0,   324,     0,     0,     0,    83,    77,     0,    79,
-       0,    80,    67,     0,    74,    75,     0,    71,    72,    78,
-      81,     0,    76,    68,     0,     0,     0,     0,    56,     0,
-      59,     0,     0,     0,   279,     0,     0,     0,     0,     0,
-       0,     0,   225,     0,     0,     0,   198,   188,     0,     0,
-       0,     0,     0,     0,     0,   204,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,    35,   357,     0,     0,     0,    48,    45,
-      43,    49,    40,     0,     0,    23,     0,   146,     0,   301,
-       0,   303,     0,   302,     0,   172,   317,   156,     0,   157,
-     133,     0,     0,     0,   330,     0,   332,     0,   325,     0,
-       0,    55,     0,     0,    73,     0,     0,     0,    82,    98,
-       0,    97,     0,     0,    66,     0,    92,    94,     0,     0,
-       0,    63,     0,   238,     0,     0,   229,     0,     0,     0,
-       0,   223,     0,     0,     0,   273,     0,     0,     0,     0,
-       0,   205,   274,   115,   112,    39,     0,     0,    46,    25,
-       0,     0,   351,   343,   349,     0,     0,     0,     0,     0,
-       0,   315,   307,   313,     0,   140,   162,   328,     0,   331,
-     178,    58,     0,     0,     0,     0,     0,    99,    96,     0,
-      93,    95,   101,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   226,     0,   230,     0,     0,     0,   221,
-     219,    44,    42,     0,     0,   346,   348,   344,     0,     0,
-       0,     0,   326,    70,    88,     0,    84,    69,    85,   103,
-     100,     0,     0,     0,   239,   240,     0,   257,   258,   224,
-       0,   222,   220,   304,   340,     0,     0,     0,     0,   102,
-       0,     0,     0,     0,     0,     0,     0,   149,    87,     0,
-     249,   250,   251,     0,     0,   241,     0,     0,   341,   314,
-       0,   242,     0,     0,     0,   256,   246,     0,   255,   253,
-       0,   254,   252,   342,     0,   247
+       0,     0,     0,     0,     0,     0,     0,     0,   117,     0,
+       0,     0,   121,     0,     0,     0,     0,     0,     0,     0,
+      47,    36,     0,    20,     0,     0,     0,   144,     0,   322,
+       0,   323,   182,   125,   129,     0,   159,   158,     0,     0,
+       0,     0,   331,     0,   333,     0,     0,   328,     0,     0,
+       0,    83,    77,     0,    79,     0,    80,    67,     0,    74,
+      75,     0,    71,    72,    78,    81,     0,    76,    68,     0,
+       0,     0,     0,    56,     0,    59,     0,     0,     0,   283,
+       0,     0,     0,     0,     0,     0,     0,   229,     0,     0,
+       0,     0,   199,   189,     0,     0,     0,     0,     0,     0,
+       0,   205,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,    35,
+     361,     0,     0,     0,    48,    45,    43,    49,    40,     0,
+       0,    23,     0,   146,     0,   305,     0,   307,     0,   306,
+       0,   172,   321,   156,     0,   157,   133,     0,     0,     0,
+     334,     0,   336,     0,   329,     0,     0,    55,     0,     0,
+      73,     0,     0,     0,    82,    98,     0,    97,     0,     0,
+      66,     0,    92,    94,     0,     0,     0,    63,     0,   242,
+       0,     0,   233,     0,     0,     0,     0,   227,     0,     0,
+       0,   277,     0,     0,     0,     0,     0,   206,   278,   115,
+     112,    39,     0,     0,    46,    25,     0,     0,   355,   347,
+     353,     0,     0,     0,     0,     0,     0,   319,   311,   317,
+       0,   140,   162,   332,     0,   335,   178,    58,     0,     0,
+       0,     0,     0,    99,    96,     0,    93,    95,   101,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,   230,
+       0,   234,     0,     0,     0,   222,   220,    44,    42,     0,
+       0,   350,   352,   348,     0,     0,     0,     0,   330,    70,
+      88,     0,    84,    69,    85,   103,   100,     0,     0,     0,
+     243,   244,     0,   261,   262,   228,     0,   223,   221,   308,
+     344,     0,     0,     0,     0,   102,     0,     0,     0,     0,
+       0,     0,     0,   149,    87,     0,   253,   254,   255,     0,
+       0,   245,     0,     0,   345,   318,     0,   246,     0,     0,
+       0,   260,   250,     0,   259,   257,     0,   258,   256,   346,
+       0,   251
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int16 yypgoto[] =
 {
-    -559,  -559,  -559,   777,  -559,   824,  -559,   504,  -559,   476,
-    -559,  -559,  -559,  -559,  -326,   -79,   360,   515,   403,  -559,
-    -559,  -559,   555,  -559,   458,  -559,  -298,  -559,  -559,  -559,
-    -559,   363,  -559,  -457,  -559,   -45,  -559,  -559,  -559,  -559,
-    -559,  -559,  -142,  -559,  -559,   607,  -202,   -83,  -559,   427,
-     -49,   -53,  -559,  -559,   -86,  -278,  -559,  -559,  -559,  -103,
-    -559,  -559,  -171,  -559,   505,  -559,  -559,  -559,    76,  -297,
-    -559,  -261,   652,   660,   509,  -147,  -188,  -559,  -559,  -559,
-    -559,  -559,  -559,   567,  -559,  -559,  -559,  -246,  -559,  -559,
-    -559,  -558,  -559,  -559,  -179,  -559,  -559,  -559,  -559,  -559,
-    -559,   -58,  -559,  -559,   744,  -106,  -559,  -559,   746,  -559,
-    -559,  -495,   297,  -559,  -559,  -559,    -2,  -559,  -559,   301,
-     622,  -559,   513,  -559,   615,  -559,   341,  -559,  -559,  -559,
-     786,  -559,  -559,  -559,  -559,  -354
+    -507,  -507,  -507,   786,  -507,   833,  -507,   506,  -507,   558,
+    -507,  -507,  -507,  -507,  -322,   -91,   419,   515,   399,  -507,
+    -507,  -507,   559,  -507,   457,  -507,  -350,  -507,  -507,  -507,
+    -507,   361,  -507,  -454,  -507,   -44,  -507,  -507,  -507,  -507,
+    -507,  -507,  -143,  -507,  -507,   615,  -199,   -93,  -507,    53,
+     -52,   164,  -507,  -507,   -63,  -278,  -507,  -507,  -507,  -136,
+    -507,  -507,  -171,  -507,   503,  -507,  -507,  -507,   109,  -299,
+    -507,  -272,   658,   673,   511,  -148,  -189,  -507,  -507,  -507,
+    -507,   120,   131,  -507,   578,  -507,  -507,  -507,  -506,  -507,
+    -507,  -507,  -302,  -507,  -507,  -114,  -507,  -507,  -507,  -507,
+     134,  -507,   -47,  -507,  -507,   757,   -90,  -507,  -507,   760,
+    -507,  -507,  -492,   299,  -507,  -507,  -507,    -2,  -507,  -507,
+     292,   627,  -507,   525,  -507,   616,  -507,   341,  -507,  -507,
+    -507,   792,  -507,  -507,  -507,  -507,  -358
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int16 yydefgoto[] =
 {
-       0,    19,    20,    21,    22,    73,   259,   260,    23,    66,
-      24,   143,    25,    26,    89,   162,   255,   344,   345,    27,
-      28,    29,    84,   288,   289,   290,   394,   488,   484,   494,
-     495,   496,   291,   497,    30,    93,    31,   251,   252,    32,
+       0,    19,    20,    21,    22,    73,   260,   261,    23,    66,
+      24,   143,    25,    26,    89,   162,   256,   349,   350,    27,
+      28,    29,    84,   289,   290,   291,   399,   494,   490,   500,
+     501,   502,   292,   503,    30,    93,    31,   252,   253,    32,
       33,    34,   153,    35,   155,   156,    36,   175,   176,   177,
-      77,   112,   113,   180,    78,   174,   261,   351,   352,   150,
-     545,   627,   116,   267,   268,   363,   469,   108,   185,   262,
-     129,   130,   131,   132,   263,   264,   225,   226,   227,   228,
-     229,   230,   231,   300,   232,   233,   234,   503,   603,   633,
-     634,   646,   235,   236,   198,   199,   200,   237,   238,   239,
-     240,   241,   134,   135,   136,   137,   138,   139,   140,   141,
-     457,   458,   459,   460,   461,    51,   462,   146,   541,   542,
-     543,   357,   275,   276,   277,   371,   478,    37,    38,    63,
-      64,   463,   538,   638,    71,   244
+      77,   112,   113,   180,    78,   174,   262,   356,   357,   150,
+     551,   633,   116,   268,   269,   368,   475,   108,   185,   263,
+     129,   130,   131,   132,   264,   265,   225,   226,   227,   228,
+     229,   230,   231,   232,   301,   233,   234,   235,   509,   609,
+     639,   640,   652,   236,   237,   198,   199,   200,   238,   239,
+     240,   241,   242,   134,   135,   136,   137,   138,   139,   140,
+     141,   463,   464,   465,   466,   467,    51,   468,   146,   547,
+     548,   549,   362,   276,   277,   278,   376,   484,    37,    38,
+      63,    64,   469,   544,   644,    71,   245
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -1197,933 +1201,1015 @@ static const yytype_int16 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int16 yytable[] =
 {
-      41,   172,   224,    44,   265,    95,   213,   415,    52,   283,
-      56,   270,    99,   100,   101,   402,   450,   403,   163,   164,
-     480,  -355,  -139,   133,   279,   115,   178,  -148,   284,   178,
-     642,   303,   182,   305,   269,    75,   271,   273,   561,   145,
-     642,   498,  -336,    40,   589,    40,    87,   -61,    90,   585,
-    -118,   643,   249,  -333,    60,   -30,    45,   210,   102,   119,
-     120,   586,    97,  -109,    39,   -33,    46,    57,  -118,  -148,
-    -347,   299,   242,  -118,   445,   479,   307,    58,  -123,   179,
-     422,   587,  -350,   147,   148,   650,   454,   109,   211,   425,
-     400,   158,    40,   615,    48,    61,   655,    47,   166,   167,
-     336,    98,  -345,  -152,   246,   504,   426,   423,    59,  -335,
-     149,  -322,  -152,  -173,   303,    75,   207,   406,   152,    42,
-     245,   548,   420,   110,   421,   266,    43,   520,   427,   428,
-     429,   430,   431,   432,   433,   434,   435,   436,   437,   438,
-     439,   440,   441,   133,   619,   563,   564,    50,  -152,   133,
-     407,   408,   149,   346,   626,   -21,   212,  -139,  -152,   111,
-    -316,   418,   419,   354,    15,  -170,  -333,  -312,   -30,  -316,
-      54,    83,  -333,  -161,   306,  -152,   468,  -336,   -33,  -152,
-     178,   104,  -148,   359,  -152,  -160,  -316,    92,  -160,   644,
-     -61,  -123,   645,  -122,   285,   286,   287,  -165,  -170,   644,
-     404,   582,   645,   152,   124,  -316,   -41,   281,    53,    65,
-     570,   476,   477,   269,  -333,  -316,  -152,    70,   471,   472,
-     183,   578,  -152,  -148,  -322,   442,  -316,   568,  -161,  -316,
-     274,  -316,  -316,    54,   517,   456,  -316,   184,  -316,  -316,
-    -160,  -316,  -316,  -316,  -335,  -161,   405,  -333,   464,  -333,
-     334,   -30,   366,   183,   530,  -316,    49,  -160,    81,  -316,
-    -316,   -33,   625,   512,   513,  -148,   248,   367,    72,    62,
-     184,   606,  -123,  -316,  -123,   361,  -122,   133,  -170,  -316,
-     648,   649,   647,   515,  -170,   540,  -161,   308,   353,   133,
-      69,  -316,  -161,   446,   617,    79,   481,  -152,  -160,  -152,
-     353,   308,   362,   309,  -160,  -322,  -122,  -322,    88,   308,
-    -165,  -170,   333,   308,    83,   334,  -165,   309,   -61,   253,
-     604,   605,    82,   629,    91,   309,   308,  -333,   576,   309,
-     443,  -154,   340,  -333,   103,  -161,  -161,  -161,   106,   368,
-      96,   358,   309,  -154,   475,   -41,   364,  -160,  -160,  -160,
-     117,   -21,   348,   341,  -316,   349,  -316,  -316,   142,  -170,
-     569,  -170,   571,   572,   514,   417,   369,  -161,   144,  -161,
-    -161,  -292,   476,   477,  -292,   519,   635,   370,   342,  -160,
-    -292,  -160,  -160,   154,  -148,  -321,  -154,   151,  -292,  -122,
-    -122,  -165,  -170,  -165,  -170,   157,   308,  -292,  -154,   254,
-     340,   165,   -41,  -154,   607,   508,   159,   114,  -333,   410,
-    -333,   509,   309,  -153,   160,  -154,  -292,   599,   308,   114,
-     161,   526,  -292,  -168,    54,  -292,  -292,   610,   -41,   411,
-     170,   510,   621,   343,   309,   412,   171,  -292,   398,    55,
-    -292,   399,  -292,  -292,  -154,   452,   527,  -292,   453,  -292,
-    -292,   411,  -292,  -292,  -292,   201,  -154,   511,   253,   651,
-     652,  -292,  -154,  -292,    76,  -292,  -292,   149,  -153,   577,
-    -292,  -292,  -292,  -166,   630,   631,   632,   637,   365,   640,
-    -292,    94,   181,  -292,  -292,  -153,   114,  -292,  -292,  -292,
-    -292,   559,  -292,    67,    68,   202,  -292,  -148,  -321,  -292,
-    -292,   343,  -292,  -292,   274,   203,  -248,  -292,  -292,   186,
-     187,   188,   189,   190,   191,   192,   193,   194,   195,   196,
-     197,   574,  -169,   256,   257,  -154,  -153,  -154,   308,   206,
-     168,   208,  -153,  -292,  -292,  -292,  -168,  -154,   254,  -154,
-     523,   -41,  -168,   207,   309,  -292,  -292,  -292,  -292,  -292,
-     347,   -24,  -292,  -292,   -24,  -292,  -292,  -292,  -292,  -292,
-    -292,  -297,  -292,  -292,  -297,  -292,   209,  -292,  -292,   308,
-    -297,   573,  -154,  -154,  -154,  -153,  -153,  -153,  -297,  -321,
-    -148,  -321,   308,   243,   609,   309,  -166,  -297,   247,   308,
-     525,   298,  -166,   453,  -167,   308,   529,  -245,   309,   207,
-     551,    85,    86,   334,  -154,   309,  -297,  -153,   250,  -153,
-     360,   309,  -297,   258,   282,  -297,  -297,  -168,   292,  -168,
-     186,   187,   188,   189,   190,   191,   602,  -297,   562,   295,
-    -297,   334,  -297,  -297,   296,  -169,   297,  -297,   308,  -297,
-    -297,  -169,  -297,  -297,  -297,  -244,   566,   304,   332,   353,
-     335,  -297,   338,  -297,   309,  -297,  -297,   339,   373,   375,
-    -297,  -297,  -297,   580,   396,   594,   353,  -166,   595,  -166,
-    -297,   397,   600,  -297,  -297,   334,   374,  -297,  -297,  -297,
-    -297,   395,  -297,  -245,  -245,  -245,  -297,    75,  -227,  -297,
-    -297,   601,  -297,  -297,   334,   413,   424,  -297,  -297,   186,
-     187,   188,   189,   190,   191,   416,   612,  -167,  -227,   353,
-     308,   444,   308,  -167,  -227,  -245,  -169,   622,  -169,   639,
-     353,   448,   334,  -297,  -297,  -297,   309,   449,   309,   451,
-     531,  -244,  -244,  -244,   466,  -297,  -297,  -297,  -297,  -297,
-     473,  -228,  -297,  -297,   474,  -297,  -297,  -297,  -297,  -297,
-    -297,  -276,  -297,  -297,  -276,  -297,   653,  -297,  -297,   334,
-    -276,  -228,   507,  -244,   482,   308,   353,  -228,  -276,   485,
-     532,   486,   499,   422,   500,   533,   506,  -276,   518,   521,
-     522,   309,   534,   535,   524,   546,   623,   539,  -167,   547,
-    -167,   549,   550,   552,   553,   554,  -276,   555,   556,   536,
-     557,   565,  -276,  -352,   537,  -276,  -276,   558,   575,   -89,
-     579,   581,   583,   584,   588,   590,   591,  -276,   593,   596,
-    -276,   597,  -276,  -276,   598,   618,   -89,  -276,   608,  -276,
-    -276,   611,  -276,  -276,  -276,   624,   493,   620,   628,   636,
-    -143,  -276,   641,  -276,   654,  -276,  -276,   105,    74,  -143,
-    -276,  -276,  -276,   455,   447,   337,   528,   501,   560,   280,
-    -276,   278,   465,  -276,  -276,   467,   409,  -276,  -276,  -276,
-    -276,   204,  -276,   205,   -89,   -89,  -276,   470,   -89,  -276,
-    -276,   614,  -276,  -276,   613,  -143,   356,  -276,  -276,   592,
-     169,   372,     0,     0,     0,  -143,     0,     0,   483,   -89,
-       0,     0,   -89,     0,     0,     0,   118,   119,   120,  -143,
-    -148,     0,  -143,  -276,  -276,  -276,  -143,     0,     0,  -148,
-       0,  -143,     0,  -143,     0,  -276,  -276,  -276,  -276,  -276,
-       0,     0,  -276,  -276,  -143,  -276,  -276,  -276,  -276,  -276,
-    -276,     0,  -276,  -276,   293,  -276,   294,  -276,  -276,  -243,
-     121,     0,  -243,  -143,     0,  -148,     0,     0,  -243,  -143,
-       0,     0,     0,     0,     0,  -148,  -243,     0,     0,     0,
-       0,     0,   118,   119,   120,  -243,     0,     0,     0,  -148,
-       0,     0,  -148,     0,     0,     0,  -148,     0,     0,     0,
-     122,  -148,     0,   149,  -243,     0,     0,     0,     0,     0,
-    -243,     0,     0,  -243,  -243,     0,   123,     0,     0,     0,
-       0,     0,     0,     0,     0,  -243,   121,     0,  -243,     0,
-    -243,  -243,     0,  -148,     0,  -243,   502,  -243,  -243,  -148,
-    -243,  -243,  -243,     0,  -143,     0,  -143,   353,     0,  -243,
-       0,  -243,     0,  -243,  -243,     0,     0,     0,  -243,  -243,
-    -243,     0,   124,   125,   126,     0,   122,     0,  -243,     0,
-       0,  -243,  -243,     0,     0,  -243,  -243,  -243,  -243,     0,
-    -243,     0,   123,     0,  -243,     0,     0,  -243,  -243,     0,
-    -243,  -243,     0,     0,     0,  -243,  -243,   127,     0,     0,
-       0,     0,   -86,     0,     0,     0,  -174,     0,  -118,     0,
-     128,     0,     0,     0,  -148,   489,  -148,     0,     0,   -86,
-       0,  -243,  -243,  -243,     0,  -118,     0,     0,   124,   125,
-     126,     0,   490,  -243,  -243,  -243,  -243,  -243,     0,     0,
-    -243,  -243,     0,  -243,  -243,  -243,  -243,  -243,  -243,  -277,
-    -243,  -243,  -277,  -243,     0,  -243,  -243,     0,  -277,     0,
-       0,     0,     0,   127,     0,     0,  -277,   -86,   -86,     0,
-       0,   -86,     0,  -118,  -118,  -277,   128,  -118,     0,  -154,
-     491,   492,     0,     0,   493,     0,     0,     0,   109,     0,
-       0,   487,   -86,     0,  -277,   -86,     0,   152,  -118,     0,
-    -277,  -118,     0,  -277,  -277,   -91,   489,     0,   -91,   118,
-     119,   120,     0,     0,     0,  -277,     0,     0,  -277,     0,
-    -277,  -277,     0,   490,   110,  -277,     0,  -277,  -277,     0,
-    -277,  -277,  -277,     0,  -154,     0,     0,     0,     0,  -277,
-       0,  -277,     0,  -277,  -277,     0,     0,     0,  -277,  -277,
-    -277,  -154,     0,     0,     0,   114,     0,     0,  -277,     0,
-     111,  -277,  -277,     0,     0,  -277,  -277,  -277,  -277,     0,
-    -277,   491,   492,     0,  -277,   493,     0,  -277,  -277,     0,
-    -277,  -277,     0,     0,     0,  -277,  -277,     0,     0,     0,
-       0,     0,  -154,   122,     0,     0,   -90,     0,  -154,   -90,
-       0,     0,     0,     0,     0,  -147,     0,     0,     0,   123,
-       0,  -277,  -277,  -277,  -147,     0,     0,     0,     0,     0,
-       0,     0,     0,  -277,  -277,  -277,  -277,  -277,     0,     0,
-    -277,  -277,     0,  -277,  -277,  -277,  -277,  -277,  -277,     0,
-    -277,  -277,   505,  -277,  -183,  -277,  -277,  -183,     0,     0,
-    -147,     0,     0,  -183,     0,   124,   125,   126,     0,     0,
-    -147,   310,     0,     0,     0,     0,     0,     0,     0,     0,
-    -183,     0,     0,  -154,  -147,  -154,     0,  -147,     0,     0,
-       0,  -147,     0,     0,     0,     0,  -147,     0,     0,  -183,
-     127,     0,     0,     0,     0,  -183,     0,     0,   311,  -183,
-       0,     0,     0,   128,     0,     0,     0,     0,     0,     0,
-    -183,     0,     0,  -183,     0,  -183,  -183,     0,  -147,     0,
-    -183,   308,  -183,  -183,  -147,  -183,  -183,  -183,     0,     0,
-       0,     0,     0,     0,  -183,     0,  -183,   309,  -183,  -183,
-       0,     0,     0,  -183,  -183,   312,     0,     0,     0,     0,
-       0,     0,     0,  -183,     0,     0,  -183,  -183,     0,     0,
-    -183,  -183,  -183,  -183,     0,   313,     0,     0,     0,  -183,
-       0,     0,   314,   315,     0,  -183,  -183,     0,     0,     0,
-     316,   317,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -147,
-       0,  -147,     0,     0,     0,     0,  -183,  -183,  -183,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,   318,   319,
-     320,   321,   322,     0,     0,   323,   324,     0,   325,   326,
-     327,   328,   329,   330,  -202,   331,  -183,  -202,  -183,     0,
-    -183,  -183,     0,  -202,     0,     0,     0,     0,     0,     0,
-       0,  -202,     0,     0,     0,     0,     0,     0,     0,     0,
-    -202,     0,     0,     0,  -128,     0,     0,     0,     0,     0,
-       0,     0,     0,   109,     0,     0,     0,     0,     0,  -202,
-       0,     0,     0,     0,     0,  -202,     0,     0,   311,  -202,
+      41,   224,    95,    44,   266,   213,   163,   164,    52,   419,
+      56,   271,   284,    99,   100,   101,   407,   172,  -359,   250,
+    -148,   486,   182,  -340,  -139,   456,    75,   648,   485,    40,
+     304,   285,   310,   270,   133,   272,   274,    40,   649,   -61,
+     145,    60,   504,   408,  -148,  -118,    87,   567,    90,   178,
+    -118,   345,   178,   595,  -337,    40,   -21,  -339,   102,   428,
+     243,    42,  -165,  -166,   591,    55,   610,   611,   451,   515,
+     300,   313,   346,   210,    97,   312,   313,  -337,    45,   431,
+     460,   179,    61,   147,   148,  -351,   429,   314,    46,   280,
+      76,   158,   314,    39,   405,   592,   432,   347,   166,   167,
+     341,   247,   621,   149,   211,  -122,   521,    94,   510,   119,
+     120,   358,    15,    98,   304,  -160,  -354,   371,  -160,    47,
+     420,   351,   641,   554,    43,   -41,   426,   149,   427,  -109,
+    -154,   526,   433,   434,   435,   436,   437,   438,   439,   440,
+     441,   442,   443,   444,   445,   446,   447,   569,   570,   423,
+     412,   413,   348,   625,   133,   648,   168,  -148,  -340,  -139,
+     133,    54,   104,    83,   576,   424,   425,  -337,  -316,    72,
+    -160,   311,   212,  -337,   364,  -165,  -166,   -30,   313,   313,
+     152,  -165,  -166,   411,   481,  -154,   650,  -160,  -122,   651,
+    -337,  -326,  -339,   -33,   314,   314,  -337,   286,   287,   288,
+    -324,    48,  -154,   359,   178,   366,   114,   282,   -41,  -324,
+    -170,   588,   482,   483,    70,  -152,  -148,   270,  -122,    54,
+     470,   313,   477,   478,  -152,   584,   409,   462,  -160,    49,
+    -325,   313,   367,   574,  -160,   482,   483,   314,   254,   523,
+    -148,   249,   115,  -154,   410,  -324,   448,   314,  -337,  -154,
+    -337,  -324,   -21,    92,   124,  -324,  -165,  -166,  -165,  -166,
+    -152,   654,   655,   536,   631,   183,   632,   518,   519,  -324,
+    -152,  -337,  -324,  -337,   339,   612,  -324,  -160,  -160,  -160,
+     372,  -324,   184,  -324,   653,  -154,   -61,  -152,  -118,   487,
+     -30,  -152,   313,   133,  -324,    50,  -152,    53,   623,   452,
+    -170,  -122,  -122,    69,  -326,   133,   -33,    62,   314,  -160,
+     275,  -160,  -160,  -324,   650,  -248,   313,   651,   255,  -324,
+     593,   -41,    79,  -170,  -154,   360,  -154,   635,  -152,  -170,
+     345,    65,   314,   582,  -152,   449,  -123,   580,  -148,   305,
+    -154,  -349,   267,  -325,   313,   109,  -169,   656,   -41,   275,
+     306,   532,   373,   307,    75,   183,   152,  -154,   661,   246,
+     314,   114,  -324,  -324,  -324,   575,   520,   577,   578,    82,
+     613,    88,   184,   -30,  -296,   363,   533,  -296,   525,   374,
+     369,   110,    91,  -296,    96,  -326,    81,  -326,   103,   -33,
+     375,  -296,  -324,   117,  -324,   106,  -324,  -324,  -154,   142,
+    -296,  -248,  -248,  -248,  -170,  -173,  -170,   144,   207,  -152,
+      83,  -152,   358,  -170,   -61,   415,  -153,   111,   151,  -296,
+     154,   149,   605,   305,  -325,  -296,  -325,   338,  -296,  -296,
+     339,   348,   616,  -248,   306,   416,   358,   307,   627,   114,
+    -296,   417,   157,  -296,   353,  -296,  -296,   354,    57,  -123,
+    -296,  -148,  -296,  -296,   159,  -296,  -296,  -296,    58,  -169,
+     403,   254,   313,   404,  -296,  -169,  -296,   458,  -296,  -296,
+     459,  -153,   583,  -296,  -296,  -296,  -167,   161,   314,  -154,
+      54,  -154,   643,  -296,   646,   160,  -296,  -296,  -153,    59,
+    -296,  -296,  -296,  -296,  -170,  -296,  -170,   565,   165,  -296,
+     352,   -24,  -296,  -296,   -24,  -296,  -296,   636,   637,   638,
+    -296,  -296,   186,   187,   188,   189,   190,   191,   192,   193,
+     194,   195,   196,   197,   170,  -154,  -154,  -154,   171,  -153,
+    -123,   313,  -123,   579,  -148,  -153,  -296,  -296,  -296,  -252,
+    -169,   255,  -169,   529,   -41,   201,   207,   314,  -296,  -296,
+    -296,  -296,  -296,   657,   658,  -296,  -296,  -154,  -296,  -296,
+    -296,  -296,  -296,  -296,  -301,  -296,  -296,  -301,  -296,   181,
+    -296,  -296,   313,  -301,   615,    67,    68,  -231,  -153,  -153,
+    -153,  -301,   257,   258,   118,   119,   120,   299,   314,  -167,
+    -301,   313,   313,   202,   516,  -167,  -168,  -231,   203,   531,
+    -249,   313,   459,  -231,   206,    85,    86,   314,   314,  -301,
+    -153,   208,  -153,   365,   416,  -301,   313,   314,  -301,  -301,
+     517,   535,   209,   557,   207,   514,   339,   244,   121,   608,
+    -301,   568,   314,  -301,   339,  -301,  -301,   118,   119,   120,
+    -301,   572,  -301,  -301,   358,  -301,  -301,  -301,   248,   586,
+     259,   370,   358,   251,  -301,   283,  -301,   600,  -301,  -301,
+     601,   293,   296,  -301,  -301,  -301,   606,   337,   122,   339,
+    -167,   607,  -167,  -301,   339,   618,  -301,  -301,   358,   297,
+    -301,  -301,  -301,  -301,   123,  -301,  -249,  -249,  -249,  -301,
+     308,   628,  -301,  -301,   358,  -301,  -301,   298,   340,   343,
+    -301,  -301,   186,   187,   188,   189,   190,   191,   645,  -168,
+     659,   339,   344,   339,   379,  -168,   378,   401,  -249,   380,
+     400,   122,   402,    75,   418,   430,  -301,  -301,  -301,   422,
+     124,   125,   126,   450,   480,   454,   455,   123,  -301,  -301,
+    -301,  -301,  -301,   457,   472,  -301,  -301,   479,  -301,  -301,
+    -301,  -301,  -301,  -301,  -280,  -301,  -301,  -280,  -301,   488,
+    -301,  -301,  -232,  -280,   491,   127,   512,   492,   513,   505,
+     506,  -280,   428,   527,  -174,   524,   528,   530,   128,   552,
+    -280,   553,  -232,   124,   125,   126,   313,   545,  -232,   555,
+    -168,   556,  -168,   186,   187,   188,   189,   190,   191,  -280,
+     558,   559,   314,   560,   561,  -280,   562,   563,  -280,  -280,
+     564,   -89,   571,   587,   581,   585,   589,   590,   127,   594,
+    -280,   596,   597,  -280,   599,  -280,  -280,   624,   -89,   602,
+    -280,   128,  -280,  -280,   603,  -280,  -280,  -280,   604,   614,
+     617,   499,   626,  -143,  -280,   634,  -280,   642,  -280,  -280,
+     647,   660,  -143,  -280,  -280,  -280,   105,    74,   534,   453,
+     461,   507,   566,  -280,   342,   281,  -280,  -280,   473,   471,
+    -280,  -280,  -280,  -280,   279,  -280,   -89,   -89,   414,  -280,
+     -89,   619,  -280,  -280,   204,  -280,  -280,   205,  -143,   620,
+    -280,  -280,   361,   377,   476,   598,   169,     0,  -143,     0,
+     489,   -89,     0,     0,   -89,     0,     0,     0,   495,   118,
+     119,   120,  -143,  -148,   537,  -143,  -280,  -280,  -280,  -143,
+       0,     0,  -148,     0,  -143,   496,  -143,     0,  -280,  -280,
+    -280,  -280,  -280,     0,     0,  -280,  -280,  -143,  -280,  -280,
+    -280,  -280,  -280,  -280,     0,  -280,  -280,   294,  -280,   295,
+    -280,  -280,  -247,   121,   538,  -247,  -143,     0,  -148,   539,
+       0,  -247,  -143,     0,     0,     0,   540,   541,  -148,  -247,
+     629,     0,     0,   497,   498,     0,     0,   499,  -247,     0,
+       0,     0,  -148,   542,     0,  -148,     0,  -356,   543,  -148,
+       0,     0,     0,   122,  -148,     0,   149,  -247,   -91,     0,
+       0,   -91,     0,  -247,     0,     0,  -247,  -247,     0,   123,
+       0,     0,     0,     0,     0,     0,     0,     0,  -247,   630,
+       0,  -247,     0,  -247,  -247,     0,  -148,     0,  -247,   508,
+    -247,  -247,  -148,  -247,  -247,  -247,     0,  -143,     0,  -143,
+     358,     0,  -247,     0,  -247,     0,  -247,  -247,     0,     0,
+       0,  -247,  -247,  -247,     0,   124,   125,   126,     0,     0,
+       0,  -247,     0,     0,  -247,  -247,     0,     0,  -247,  -247,
+    -247,  -247,     0,  -247,     0,     0,     0,  -247,     0,     0,
+    -247,  -247,     0,  -247,  -247,     0,     0,     0,  -247,  -247,
+     127,     0,     0,     0,     0,   -86,     0,     0,     0,     0,
+       0,  -118,     0,   128,     0,     0,     0,  -148,   495,  -148,
+       0,     0,   -86,     0,  -247,  -247,  -247,     0,  -118,     0,
+       0,     0,     0,     0,     0,   496,  -247,  -247,  -247,  -247,
+    -247,     0,     0,  -247,  -247,     0,  -247,  -247,  -247,  -247,
+    -247,  -247,  -281,  -247,  -247,  -281,  -247,     0,  -247,  -247,
+       0,  -281,     0,     0,     0,     0,     0,     0,     0,  -281,
+     -86,   -86,     0,     0,   -86,     0,  -118,  -118,  -281,     0,
+    -118,     0,  -154,   497,   498,     0,     0,   499,     0,     0,
+    -161,   109,     0,   474,   493,   -86,     0,  -281,   -86,     0,
+     152,  -118,     0,  -281,  -118,     0,  -281,  -281,   -90,     0,
+       0,   -90,     0,     0,     0,     0,     0,     0,  -281,     0,
+       0,  -281,     0,  -281,  -281,     0,     0,   110,  -281,     0,
+    -281,  -281,     0,  -281,  -281,  -281,     0,  -154,     0,     0,
+       0,     0,  -281,     0,  -281,  -161,  -281,  -281,     0,     0,
+       0,  -281,  -281,  -281,  -154,     0,     0,     0,   114,     0,
+       0,  -281,  -161,   111,  -281,  -281,     0,     0,  -281,  -281,
+    -281,  -281,     0,  -281,     0,     0,     0,  -281,     0,     0,
+    -281,  -281,     0,  -281,  -281,     0,     0,     0,  -281,  -281,
+       0,     0,     0,     0,     0,  -154,     0,     0,     0,     0,
+       0,  -154,     0,  -161,     0,     0,     0,     0,     0,  -161,
+       0,     0,     0,     0,  -281,  -281,  -281,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -281,  -281,  -281,  -281,
+    -281,     0,     0,  -281,  -281,     0,  -281,  -281,  -281,  -281,
+    -281,  -281,     0,  -281,  -281,   511,  -281,  -183,  -281,  -281,
+    -183,     0,  -161,  -161,  -161,     0,  -183,     0,     0,     0,
+       0,     0,     0,     0,   315,     0,     0,     0,     0,     0,
+       0,     0,     0,  -183,     0,     0,  -154,     0,  -154,     0,
+       0,     0,     0,     0,  -161,     0,  -161,  -161,     0,     0,
+       0,     0,  -183,     0,     0,     0,     0,     0,  -183,     0,
+       0,   316,  -183,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -183,     0,     0,  -183,     0,  -183,  -183,
+       0,     0,     0,  -183,     0,  -183,  -183,     0,  -183,  -183,
+    -183,     0,     0,     0,     0,     0,     0,  -183,     0,  -183,
+       0,  -183,  -183,     0,     0,     0,  -183,  -183,   317,     0,
+       0,     0,     0,     0,     0,     0,  -183,     0,     0,  -183,
+    -183,     0,     0,  -183,  -183,  -183,  -183,     0,   318,     0,
+       0,     0,  -183,     0,     0,   319,   320,     0,  -183,  -183,
+       0,     0,     0,   321,   322,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -202,     0,     0,  -202,     0,  -202,  -202,     0,     0,   110,
-    -202,     0,  -202,  -202,     0,  -202,  -202,  -202,     0,  -128,
-       0,     0,     0,     0,  -202,     0,  -202,     0,  -202,  -202,
-       0,     0,     0,  -202,  -202,   312,  -128,     0,     0,     0,
-    -128,     0,     0,  -202,     0,   111,  -202,  -202,     0,     0,
-    -202,  -202,  -202,  -202,     0,   414,     0,     0,     0,  -202,
-       0,     0,  -202,   315,     0,  -202,  -202,     0,     0,     0,
-     316,   317,     0,     0,     0,     0,     0,  -128,     0,     0,
-       0,     0,     0,  -128,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -202,  -202,  -202,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,   318,   319,
-     320,   321,   322,     0,     0,   323,   324,     0,   325,   326,
-     327,   328,   329,   330,  -201,   331,  -202,  -201,  -202,     0,
-    -202,  -202,     0,  -201,     0,     0,     0,     0,     0,     0,
-       0,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
-    -201,     0,     0,     0,     0,     0,     0,     0,  -128,     0,
-    -128,     0,     0,     0,     0,     0,     0,     0,     0,  -201,
-       0,     0,     0,     0,     0,  -201,     0,     0,  -201,  -201,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -183,
+    -183,  -183,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,   323,   324,   325,   326,   327,     0,     0,   328,   329,
+       0,   330,   331,   332,   333,   334,   335,  -203,   336,  -183,
+    -203,  -183,     0,  -183,  -183,     0,  -203,     0,     0,     0,
+       0,     0,     0,     0,   315,     0,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,     0,  -128,     0,     0,
+       0,     0,     0,     0,     0,     0,   109,     0,     0,     0,
+       0,     0,  -203,     0,     0,     0,     0,     0,  -203,     0,
+       0,   316,  -203,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,  -203,     0,  -203,  -203,
+       0,     0,   110,  -203,     0,  -203,  -203,     0,  -203,  -203,
+    -203,     0,  -128,     0,     0,     0,     0,  -203,     0,  -203,
+       0,  -203,  -203,     0,     0,     0,  -203,  -203,   317,  -128,
+       0,     0,     0,  -128,     0,     0,  -203,     0,   111,  -203,
+    -203,     0,     0,  -203,  -203,  -203,  -203,     0,   318,     0,
+       0,     0,  -203,     0,     0,   319,   320,     0,  -203,  -203,
+       0,     0,     0,   321,   322,     0,     0,     0,     0,     0,
+    -128,     0,     0,     0,     0,     0,  -128,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -203,
+    -203,  -203,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,   323,   324,   325,   326,   327,     0,     0,   328,   329,
+       0,   330,   331,   332,   333,   334,   335,  -202,   336,  -203,
+    -202,  -203,     0,  -203,  -203,     0,  -202,     0,     0,     0,
+       0,     0,     0,     0,  -202,     0,     0,     0,     0,     0,
+       0,     0,     0,  -202,     0,     0,     0,     0,     0,     0,
+       0,  -128,     0,  -128,     0,     0,     0,     0,     0,     0,
+       0,     0,  -202,     0,     0,     0,     0,     0,  -202,     0,
+       0,  -202,  -202,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -202,     0,     0,  -202,     0,  -202,  -202,
+       0,     0,     0,  -202,     0,  -202,  -202,     0,  -202,  -202,
+    -202,     0,     0,     0,     0,     0,     0,  -202,     0,  -202,
+       0,  -202,  -202,     0,     0,     0,  -202,  -202,  -202,     0,
+       0,     0,     0,     0,     0,     0,  -202,     0,     0,  -202,
+    -202,     0,     0,  -202,  -202,  -202,  -202,     0,  -202,     0,
+       0,     0,  -202,     0,     0,  -202,  -202,     0,  -202,  -202,
+       0,     0,     0,   321,  -202,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -201,     0,     0,  -201,     0,  -201,  -201,     0,     0,     0,
-    -201,     0,  -201,  -201,     0,  -201,  -201,  -201,     0,     0,
-       0,     0,     0,     0,  -201,     0,  -201,     0,  -201,  -201,
-       0,     0,     0,  -201,  -201,  -201,     0,     0,     0,     0,
-       0,     0,     0,  -201,     0,     0,  -201,  -201,     0,     0,
-    -201,  -201,  -201,  -201,     0,  -201,     0,     0,     0,  -201,
-       0,     0,  -201,  -201,     0,  -201,  -201,     0,     0,     0,
-     316,  -201,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -202,
+    -202,  -202,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -202,  -202,  -202,  -202,  -202,     0,     0,  -202,  -202,
+       0,  -202,  -202,   332,   333,   334,   335,  -203,   336,  -202,
+    -203,  -202,     0,  -202,  -202,     0,  -203,     0,     0,     0,
+       0,     0,     0,     0,  -203,     0,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -201,  -201,  -201,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -201,  -201,
-    -201,  -201,  -201,     0,     0,  -201,  -201,     0,  -201,  -201,
-     327,   328,   329,   330,  -216,   331,  -201,  -216,  -201,     0,
-    -201,  -201,     0,  -216,     0,     0,     0,     0,     0,     0,
-       0,  -216,     0,     0,     0,     0,     0,     0,     0,     0,
-    -216,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -216,
-       0,     0,     0,     0,     0,  -216,     0,     0,  -216,  -216,
+       0,     0,  -203,     0,     0,     0,     0,     0,  -203,     0,
+       0,   316,  -203,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -203,     0,     0,  -203,     0,  -203,  -203,
+       0,     0,     0,  -203,     0,  -203,  -203,     0,  -203,  -203,
+    -203,     0,     0,     0,     0,     0,     0,  -203,     0,  -203,
+       0,  -203,  -203,     0,     0,     0,  -203,  -203,   317,     0,
+       0,     0,     0,     0,     0,     0,  -203,     0,     0,  -203,
+    -203,     0,     0,  -203,  -203,  -203,  -203,     0,   421,     0,
+       0,     0,  -203,     0,     0,  -203,   320,     0,  -203,  -203,
+       0,     0,     0,   321,   322,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -216,     0,     0,  -216,     0,  -216,  -216,     0,     0,     0,
-    -216,     0,  -216,  -216,     0,  -216,  -216,  -216,     0,     0,
-       0,     0,     0,     0,  -216,     0,  -216,     0,  -216,  -216,
-       0,     0,     0,  -216,  -216,  -216,     0,     0,     0,     0,
-       0,     0,     0,  -216,     0,     0,  -216,  -216,     0,     0,
-    -216,  -216,  -216,  -216,     0,  -216,     0,     0,     0,  -216,
-       0,     0,  -216,  -216,     0,  -216,  -216,     0,     0,     0,
-    -216,  -216,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -216,  -216,  -216,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -216,  -216,
-    -216,  -216,  -216,     0,     0,  -216,  -216,     0,  -216,  -216,
-    -216,  -216,  -216,  -216,  -208,   331,  -216,  -208,  -216,     0,
-    -216,  -216,     0,  -208,     0,     0,     0,     0,     0,     0,
-       0,  -208,     0,     0,     0,     0,     0,     0,     0,     0,
-    -208,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
-       0,     0,     0,     0,     0,  -208,     0,     0,  -208,  -208,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -203,
+    -203,  -203,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,   323,   324,   325,   326,   327,     0,     0,   328,   329,
+       0,   330,   331,   332,   333,   334,   335,  -217,   336,  -203,
+    -217,  -203,     0,  -203,  -203,     0,  -217,     0,     0,     0,
+       0,     0,     0,     0,  -217,     0,     0,     0,     0,     0,
+       0,     0,     0,  -217,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -208,     0,     0,  -208,     0,  -208,  -208,     0,     0,     0,
-    -208,     0,  -208,  -208,     0,  -208,  -208,  -208,     0,     0,
-       0,     0,     0,     0,  -208,     0,  -208,     0,  -208,  -208,
-       0,     0,     0,  -208,  -208,  -208,     0,     0,     0,     0,
-       0,     0,     0,  -208,     0,     0,  -208,  -208,     0,     0,
-    -208,  -208,  -208,  -208,     0,  -208,     0,     0,     0,  -208,
-       0,     0,  -208,  -208,     0,  -208,  -208,     0,     0,     0,
-     316,  -208,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -217,     0,     0,     0,     0,     0,  -217,     0,
+       0,  -217,  -217,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -217,     0,     0,  -217,     0,  -217,  -217,
+       0,     0,     0,  -217,     0,  -217,  -217,     0,  -217,  -217,
+    -217,     0,     0,     0,     0,     0,     0,  -217,     0,  -217,
+       0,  -217,  -217,     0,     0,     0,  -217,  -217,  -217,     0,
+       0,     0,     0,     0,     0,     0,  -217,     0,     0,  -217,
+    -217,     0,     0,  -217,  -217,  -217,  -217,     0,  -217,     0,
+       0,     0,  -217,     0,     0,  -217,  -217,     0,  -217,  -217,
+       0,     0,     0,  -217,  -217,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -208,  -208,  -208,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -208,  -208,
-    -208,  -208,  -208,     0,     0,  -208,  -208,     0,  -208,  -208,
-     327,   328,   329,   330,  -207,   331,  -208,  -207,  -208,     0,
-    -208,  -208,     0,  -207,     0,     0,     0,     0,     0,     0,
-       0,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
-    -207,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -207,
-       0,     0,     0,     0,     0,  -207,     0,     0,  -207,  -207,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -217,
+    -217,  -217,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -217,  -217,  -217,  -217,  -217,     0,     0,  -217,  -217,
+       0,  -217,  -217,  -217,  -217,  -217,  -217,  -209,   336,  -217,
+    -209,  -217,     0,  -217,  -217,     0,  -209,     0,     0,     0,
+       0,     0,     0,     0,  -209,     0,     0,     0,     0,     0,
+       0,     0,     0,  -209,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -207,     0,     0,  -207,     0,  -207,  -207,     0,     0,     0,
-    -207,     0,  -207,  -207,     0,  -207,  -207,  -207,     0,     0,
-       0,     0,     0,     0,  -207,     0,  -207,     0,  -207,  -207,
-       0,     0,     0,  -207,  -207,  -207,     0,     0,     0,     0,
-       0,     0,     0,  -207,     0,     0,  -207,  -207,     0,     0,
-    -207,  -207,  -207,  -207,     0,  -207,     0,     0,     0,  -207,
-       0,     0,  -207,  -207,     0,  -207,  -207,     0,     0,     0,
-     316,  -207,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -209,     0,     0,     0,     0,     0,  -209,     0,
+       0,  -209,  -209,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -209,     0,     0,  -209,     0,  -209,  -209,
+       0,     0,     0,  -209,     0,  -209,  -209,     0,  -209,  -209,
+    -209,     0,     0,     0,     0,     0,     0,  -209,     0,  -209,
+       0,  -209,  -209,     0,     0,     0,  -209,  -209,  -209,     0,
+       0,     0,     0,     0,     0,     0,  -209,     0,     0,  -209,
+    -209,     0,     0,  -209,  -209,  -209,  -209,     0,  -209,     0,
+       0,     0,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,
+       0,     0,     0,   321,  -209,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -207,  -207,  -207,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -207,  -207,
-    -207,  -207,  -207,     0,     0,  -207,  -207,     0,  -207,  -207,
-     327,   328,   329,   330,  -210,   331,  -207,  -210,  -207,     0,
-    -207,  -207,     0,  -210,     0,     0,     0,     0,     0,     0,
-       0,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
-    -210,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -210,
-       0,     0,     0,     0,     0,  -210,     0,     0,  -210,  -210,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -209,
+    -209,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -209,  -209,  -209,  -209,  -209,     0,     0,  -209,  -209,
+       0,  -209,  -209,   332,   333,   334,   335,  -208,   336,  -209,
+    -208,  -209,     0,  -209,  -209,     0,  -208,     0,     0,     0,
+       0,     0,     0,     0,  -208,     0,     0,     0,     0,     0,
+       0,     0,     0,  -208,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -210,     0,     0,  -210,     0,  -210,  -210,     0,     0,     0,
-    -210,     0,  -210,  -210,     0,  -210,  -210,  -210,     0,     0,
-       0,     0,     0,     0,  -210,     0,  -210,     0,  -210,  -210,
-       0,     0,     0,  -210,  -210,  -210,     0,     0,     0,     0,
-       0,     0,     0,  -210,     0,     0,  -210,  -210,     0,     0,
-    -210,  -210,  -210,  -210,     0,  -210,     0,     0,     0,  -210,
-       0,     0,  -210,  -210,     0,  -210,  -210,     0,     0,     0,
-     316,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -208,     0,     0,     0,     0,     0,  -208,     0,
+       0,  -208,  -208,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -208,     0,     0,  -208,     0,  -208,  -208,
+       0,     0,     0,  -208,     0,  -208,  -208,     0,  -208,  -208,
+    -208,     0,     0,     0,     0,     0,     0,  -208,     0,  -208,
+       0,  -208,  -208,     0,     0,     0,  -208,  -208,  -208,     0,
+       0,     0,     0,     0,     0,     0,  -208,     0,     0,  -208,
+    -208,     0,     0,  -208,  -208,  -208,  -208,     0,  -208,     0,
+       0,     0,  -208,     0,     0,  -208,  -208,     0,  -208,  -208,
+       0,     0,     0,   321,  -208,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -210,  -210,  -210,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -210,  -210,
-    -210,  -210,  -210,     0,     0,  -210,  -210,     0,  -210,  -210,
-    -210,  -210,  -210,   330,  -209,   331,  -210,  -209,  -210,     0,
-    -210,  -210,     0,  -209,     0,     0,     0,     0,     0,     0,
-       0,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
-    -209,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -209,
-       0,     0,     0,     0,     0,  -209,     0,     0,  -209,  -209,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -208,
+    -208,  -208,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -208,  -208,  -208,  -208,  -208,     0,     0,  -208,  -208,
+       0,  -208,  -208,   332,   333,   334,   335,  -211,   336,  -208,
+    -211,  -208,     0,  -208,  -208,     0,  -211,     0,     0,     0,
+       0,     0,     0,     0,  -211,     0,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -209,     0,     0,  -209,     0,  -209,  -209,     0,     0,     0,
-    -209,     0,  -209,  -209,     0,  -209,  -209,  -209,     0,     0,
-       0,     0,     0,     0,  -209,     0,  -209,     0,  -209,  -209,
-       0,     0,     0,  -209,  -209,  -209,     0,     0,     0,     0,
-       0,     0,     0,  -209,     0,     0,  -209,  -209,     0,     0,
-    -209,  -209,  -209,  -209,     0,  -209,     0,     0,     0,  -209,
-       0,     0,  -209,  -209,     0,  -209,  -209,     0,     0,     0,
-     316,  -209,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -211,     0,     0,     0,     0,     0,  -211,     0,
+       0,  -211,  -211,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -211,     0,     0,  -211,     0,  -211,  -211,
+       0,     0,     0,  -211,     0,  -211,  -211,     0,  -211,  -211,
+    -211,     0,     0,     0,     0,     0,     0,  -211,     0,  -211,
+       0,  -211,  -211,     0,     0,     0,  -211,  -211,  -211,     0,
+       0,     0,     0,     0,     0,     0,  -211,     0,     0,  -211,
+    -211,     0,     0,  -211,  -211,  -211,  -211,     0,  -211,     0,
+       0,     0,  -211,     0,     0,  -211,  -211,     0,  -211,  -211,
+       0,     0,     0,   321,  -211,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -209,  -209,  -209,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -209,  -209,
-    -209,  -209,  -209,     0,     0,  -209,  -209,     0,  -209,  -209,
-    -209,  -209,  -209,   330,  -211,   331,  -209,  -211,  -209,     0,
-    -209,  -209,     0,  -211,     0,     0,     0,     0,     0,     0,
-       0,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
-    -211,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,  -211,
-       0,     0,     0,     0,     0,  -211,     0,     0,  -211,  -211,
+    -211,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -211,  -211,  -211,  -211,  -211,     0,     0,  -211,  -211,
+       0,  -211,  -211,  -211,  -211,  -211,   335,  -210,   336,  -211,
+    -210,  -211,     0,  -211,  -211,     0,  -210,     0,     0,     0,
+       0,     0,     0,     0,  -210,     0,     0,     0,     0,     0,
+       0,     0,     0,  -210,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -211,     0,     0,  -211,     0,  -211,  -211,     0,     0,     0,
-    -211,     0,  -211,  -211,     0,  -211,  -211,  -211,     0,     0,
-       0,     0,     0,     0,  -211,     0,  -211,     0,  -211,  -211,
-       0,     0,     0,  -211,  -211,  -211,     0,     0,     0,     0,
-       0,     0,     0,  -211,     0,     0,  -211,  -211,     0,     0,
-    -211,  -211,  -211,  -211,     0,  -211,     0,     0,     0,  -211,
-       0,     0,  -211,  -211,     0,  -211,  -211,     0,     0,     0,
-     316,  -211,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -210,     0,     0,     0,     0,     0,  -210,     0,
+       0,  -210,  -210,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -210,     0,     0,  -210,     0,  -210,  -210,
+       0,     0,     0,  -210,     0,  -210,  -210,     0,  -210,  -210,
+    -210,     0,     0,     0,     0,     0,     0,  -210,     0,  -210,
+       0,  -210,  -210,     0,     0,     0,  -210,  -210,  -210,     0,
+       0,     0,     0,     0,     0,     0,  -210,     0,     0,  -210,
+    -210,     0,     0,  -210,  -210,  -210,  -210,     0,  -210,     0,
+       0,     0,  -210,     0,     0,  -210,  -210,     0,  -210,  -210,
+       0,     0,     0,   321,  -210,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -210,
+    -210,  -210,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -210,  -210,  -210,  -210,  -210,     0,     0,  -210,  -210,
+       0,  -210,  -210,  -210,  -210,  -210,   335,  -212,   336,  -210,
+    -212,  -210,     0,  -210,  -210,     0,  -212,     0,     0,     0,
+       0,     0,     0,     0,  -212,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -212,     0,     0,     0,     0,     0,  -212,     0,
+       0,  -212,  -212,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -212,     0,     0,  -212,     0,  -212,  -212,
+       0,     0,     0,  -212,     0,  -212,  -212,     0,  -212,  -212,
+    -212,     0,     0,     0,     0,     0,     0,  -212,     0,  -212,
+       0,  -212,  -212,     0,     0,     0,  -212,  -212,  -212,     0,
+       0,     0,     0,     0,     0,     0,  -212,     0,     0,  -212,
+    -212,     0,     0,  -212,  -212,  -212,  -212,     0,  -212,     0,
+       0,     0,  -212,     0,     0,  -212,  -212,     0,  -212,  -212,
+       0,     0,     0,   321,  -212,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -211,  -211,  -211,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,  -211,  -211,
-    -211,  -211,  -211,     0,     0,  -211,  -211,     0,  -211,  -211,
-    -211,  -211,  -211,   330,  -212,   331,  -211,  -212,  -211,     0,
-    -211,  -211,     0,  -212,     0,     0,     0,     0,     0,     0,
-       0,  -212,     0,     0,     0,     0,     0,     0,     0,     0,
-    -212,     0,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,  -212,
-       0,     0,     0,     0,     0,  -212,     0,     0,  -212,  -212,
+    -212,  -212,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -212,  -212,  -212,  -212,  -212,     0,     0,  -212,  -212,
+       0,  -212,  -212,  -212,  -212,  -212,   335,  -213,   336,  -212,
+    -213,  -212,     0,  -212,  -212,     0,  -213,     0,     0,     0,
+       0,     0,     0,     0,  -213,     0,     0,     0,     0,     0,
+       0,     0,     0,  -213,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -212,     0,     0,  -212,     0,  -212,  -212,     0,     0,     0,
-    -212,     0,  -212,  -212,     0,  -212,  -212,  -212,     0,     0,
-       0,     0,     0,     0,  -212,     0,  -212,     0,  -212,  -212,
-       0,     0,     0,  -212,  -212,  -212,     0,     0,     0,     0,
-       0,     0,     0,  -212,     0,     0,  -212,  -212,     0,     0,
-    -212,  -212,  -212,  -212,     0,  -212,     0,     0,     0,  -212,
-       0,     0,  -212,  -212,     0,  -212,  -212,     0,     0,     0,
-     316,  -212,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -213,     0,     0,     0,     0,     0,  -213,     0,
+       0,  -213,  -213,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -213,     0,     0,  -213,     0,  -213,  -213,
+       0,     0,     0,  -213,     0,  -213,  -213,     0,  -213,  -213,
+    -213,     0,     0,     0,     0,     0,     0,  -213,     0,  -213,
+       0,  -213,  -213,     0,     0,     0,  -213,  -213,  -213,     0,
+       0,     0,     0,     0,     0,     0,  -213,     0,     0,  -213,
+    -213,     0,     0,  -213,  -213,  -213,  -213,     0,  -213,     0,
+       0,     0,  -213,     0,     0,  -213,  -213,     0,  -213,  -213,
+       0,     0,     0,   321,  -213,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -275,     0,     0,  -275,     0,  -212,  -212,  -212,     0,
-    -275,     0,     0,     0,     0,     0,     0,     0,  -212,  -212,
-    -212,  -212,  -212,     0,     0,  -212,  -212,  -275,  -212,  -212,
-    -212,  -212,  -212,  -212,     0,   331,  -212,     0,  -212,     0,
-    -212,  -212,     0,     0,     0,     0,  -275,     0,     0,     0,
-       0,     0,  -275,     0,     0,   311,  -275,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -275,     0,     0,
-    -275,     0,  -275,  -275,     0,     0,     0,  -275,     0,  -275,
-    -275,     0,  -275,  -275,  -275,     0,     0,     0,     0,     0,
-       0,  -275,     0,  -275,     0,  -275,  -275,     0,     0,     0,
-    -275,  -275,   312,     0,     0,     0,     0,     0,     0,     0,
-    -275,     0,     0,  -275,  -275,     0,     0,  -275,  -275,  -275,
-    -275,     0,   414,     0,     0,     0,  -275,     0,     0,     0,
-     315,     0,  -275,  -275,     0,     0,     0,   316,   317,     0,
+       0,     0,     0,     0,  -279,     0,     0,  -279,     0,  -213,
+    -213,  -213,     0,  -279,     0,     0,     0,     0,     0,     0,
+       0,  -213,  -213,  -213,  -213,  -213,     0,     0,  -213,  -213,
+    -279,  -213,  -213,  -213,  -213,  -213,  -213,     0,   336,  -213,
+       0,  -213,     0,  -213,  -213,     0,     0,     0,     0,  -279,
+       0,     0,     0,     0,     0,  -279,     0,     0,   316,  -279,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+    -279,     0,     0,  -279,     0,  -279,  -279,     0,     0,     0,
+    -279,     0,  -279,  -279,     0,  -279,  -279,  -279,     0,     0,
+       0,     0,     0,     0,  -279,     0,  -279,     0,  -279,  -279,
+       0,     0,     0,  -279,  -279,   317,     0,     0,     0,     0,
+       0,     0,     0,  -279,     0,     0,  -279,  -279,     0,     0,
+    -279,  -279,  -279,  -279,     0,   421,     0,     0,     0,  -279,
+       0,     0,     0,   320,     0,  -279,  -279,     0,     0,     0,
+     321,   322,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -275,  -275,  -275,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,   318,   319,   320,   321,   322,
-       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
-     330,  -234,   331,  -275,  -234,  -275,     0,  -275,  -275,     0,
-    -234,     0,     0,     0,     0,     0,     0,     0,  -234,     0,
-       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
+       0,     0,     0,     0,     0,     0,  -279,  -279,  -279,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   323,   324,
+     325,   326,   327,     0,     0,   328,   329,     0,   330,   331,
+     332,   333,   334,   335,  -238,   336,  -279,  -238,  -279,     0,
+    -279,  -279,     0,  -238,     0,     0,     0,     0,     0,     0,
+       0,  -238,     0,     0,     0,     0,     0,     0,     0,     0,
+    -238,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -238,
+       0,     0,     0,     0,     0,  -238,     0,     0,   316,  -238,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -234,     0,     0,     0,
-       0,     0,  -234,     0,     0,   311,  -234,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -234,     0,     0,
-    -234,     0,  -234,  -234,     0,     0,     0,  -234,     0,  -234,
-    -234,     0,  -234,  -234,  -234,     0,     0,     0,     0,     0,
-       0,  -234,     0,  -234,     0,  -234,  -234,     0,     0,     0,
-    -234,  -234,  -234,     0,     0,     0,     0,     0,     0,     0,
-    -234,     0,     0,  -234,  -234,     0,     0,  -234,  -234,  -234,
-    -234,     0,  -234,     0,     0,     0,  -234,     0,     0,  -234,
-     315,     0,  -234,  -234,     0,     0,     0,   316,  -234,     0,
+    -238,     0,     0,  -238,     0,  -238,  -238,     0,     0,     0,
+    -238,     0,  -238,  -238,     0,  -238,  -238,  -238,     0,     0,
+       0,     0,     0,     0,  -238,     0,  -238,     0,  -238,  -238,
+       0,     0,     0,  -238,  -238,  -238,     0,     0,     0,     0,
+       0,     0,     0,  -238,     0,     0,  -238,  -238,     0,     0,
+    -238,  -238,  -238,  -238,     0,  -238,     0,     0,     0,  -238,
+       0,     0,  -238,   320,     0,  -238,  -238,     0,     0,     0,
+     321,  -238,     0,     0,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -235,     0,     0,
-    -235,     0,     0,  -234,  -234,  -234,  -235,     0,     0,     0,
-       0,     0,     0,     0,  -235,  -234,  -234,  -234,     0,     0,
-       0,     0,     0,  -235,     0,   325,   326,   327,   328,   329,
-     330,     0,   331,  -234,     0,  -234,     0,  -234,  -234,     0,
-       0,     0,  -235,     0,     0,     0,     0,     0,  -235,     0,
-       0,   311,  -235,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -235,     0,     0,  -235,     0,  -235,  -235,
-       0,     0,     0,  -235,     0,  -235,  -235,     0,  -235,  -235,
-    -235,     0,     0,     0,     0,     0,     0,  -235,     0,  -235,
-       0,  -235,  -235,     0,     0,     0,  -235,  -235,  -235,     0,
-       0,     0,     0,     0,     0,     0,  -235,     0,     0,  -235,
-    -235,     0,     0,  -235,  -235,  -235,  -235,     0,  -235,     0,
-       0,     0,  -235,     0,     0,  -235,   315,     0,  -235,  -235,
-       0,     0,     0,   316,  -235,     0,     0,     0,     0,     0,
+    -239,     0,     0,  -239,     0,     0,  -238,  -238,  -238,  -239,
+       0,     0,     0,     0,     0,     0,     0,  -239,  -238,  -238,
+    -238,     0,     0,     0,     0,     0,  -239,     0,   330,   331,
+     332,   333,   334,   335,     0,   336,  -238,     0,  -238,     0,
+    -238,  -238,     0,     0,     0,  -239,     0,     0,     0,     0,
+       0,  -239,     0,     0,   316,  -239,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -239,     0,     0,  -239,
+       0,  -239,  -239,     0,     0,     0,  -239,     0,  -239,  -239,
+       0,  -239,  -239,  -239,     0,     0,     0,     0,     0,     0,
+    -239,     0,  -239,     0,  -239,  -239,     0,     0,     0,  -239,
+    -239,  -239,     0,     0,     0,     0,     0,     0,     0,  -239,
+       0,     0,  -239,  -239,     0,     0,  -239,  -239,  -239,  -239,
+       0,  -239,     0,     0,     0,  -239,     0,     0,  -239,   320,
+       0,  -239,  -239,     0,     0,     0,   321,  -239,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -236,     0,     0,  -236,     0,     0,  -235,
-    -235,  -235,  -236,     0,     0,     0,     0,     0,     0,     0,
-    -236,  -235,  -235,  -235,     0,     0,     0,     0,     0,  -236,
-       0,   325,   326,   327,   328,   329,   330,     0,   331,  -235,
-       0,  -235,     0,  -235,  -235,     0,     0,     0,  -236,     0,
-       0,     0,     0,     0,  -236,     0,     0,   311,  -236,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -236,
-       0,     0,  -236,     0,  -236,  -236,     0,     0,     0,  -236,
-       0,  -236,  -236,     0,  -236,  -236,  -236,     0,     0,     0,
-       0,     0,     0,  -236,     0,  -236,     0,  -236,  -236,     0,
-       0,     0,  -236,  -236,  -236,     0,     0,     0,     0,     0,
-       0,     0,  -236,     0,     0,  -236,  -236,     0,     0,  -236,
-    -236,  -236,  -236,     0,  -236,     0,     0,     0,  -236,     0,
-       0,  -236,   315,     0,  -236,  -236,     0,     0,     0,   316,
-    -236,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -237,
-       0,     0,  -237,     0,     0,  -236,  -236,  -236,  -237,     0,
-       0,     0,     0,     0,     0,     0,  -237,  -236,  -236,  -236,
-       0,     0,     0,     0,     0,  -237,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,  -236,     0,  -236,     0,  -236,
-    -236,     0,     0,     0,  -237,     0,     0,     0,     0,     0,
-    -237,     0,     0,   311,  -237,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -237,     0,     0,  -237,     0,
-    -237,  -237,     0,     0,     0,  -237,     0,  -237,  -237,     0,
-    -237,  -237,  -237,     0,     0,     0,     0,     0,     0,  -237,
-       0,  -237,     0,  -237,  -237,     0,     0,     0,  -237,  -237,
-    -237,     0,     0,     0,     0,     0,     0,     0,  -237,     0,
-       0,  -237,  -237,     0,     0,  -237,  -237,  -237,  -237,     0,
-    -237,     0,     0,     0,  -237,     0,     0,  -237,   315,     0,
-    -237,  -237,     0,     0,     0,   316,  -237,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -240,     0,     0,  -240,
+       0,     0,  -239,  -239,  -239,  -240,     0,     0,     0,     0,
+       0,     0,     0,  -240,  -239,  -239,  -239,     0,     0,     0,
+       0,     0,  -240,     0,   330,   331,   332,   333,   334,   335,
+       0,   336,  -239,     0,  -239,     0,  -239,  -239,     0,     0,
+       0,  -240,     0,     0,     0,     0,     0,  -240,     0,     0,
+     316,  -240,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -240,     0,     0,  -240,     0,  -240,  -240,     0,
+       0,     0,  -240,     0,  -240,  -240,     0,  -240,  -240,  -240,
+       0,     0,     0,     0,     0,     0,  -240,     0,  -240,     0,
+    -240,  -240,     0,     0,     0,  -240,  -240,  -240,     0,     0,
+       0,     0,     0,     0,     0,  -240,     0,     0,  -240,  -240,
+       0,     0,  -240,  -240,  -240,  -240,     0,  -240,     0,     0,
+       0,  -240,     0,     0,  -240,   320,     0,  -240,  -240,     0,
+       0,     0,   321,  -240,     0,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -213,     0,     0,  -213,     0,
-       0,  -237,  -237,  -237,  -213,     0,     0,     0,     0,     0,
-       0,     0,  -213,  -237,  -237,  -237,     0,     0,     0,     0,
-       0,  -213,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,  -237,     0,  -237,     0,  -237,  -237,     0,     0,     0,
-    -213,     0,     0,     0,     0,     0,  -213,     0,     0,   311,
-    -213,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -213,     0,     0,  -213,     0,  -213,  -213,     0,     0,
-       0,  -213,     0,  -213,  -213,     0,  -213,  -213,  -213,     0,
-       0,     0,     0,     0,     0,  -213,     0,  -213,     0,  -213,
-    -213,     0,     0,     0,  -213,  -213,     0,     0,     0,     0,
-       0,     0,     0,     0,  -213,     0,     0,  -213,  -213,     0,
-       0,  -213,  -213,  -213,  -213,     0,  -213,     0,     0,     0,
-    -213,     0,     0,  -213,   315,     0,  -213,  -213,     0,     0,
-       0,   316,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -215,     0,     0,  -215,     0,     0,     0,
-       0,     0,  -215,     0,     0,     0,     0,  -213,  -213,  -213,
-    -215,     0,     0,     0,     0,     0,     0,     0,     0,  -215,
-       0,     0,   321,   322,     0,     0,   323,   324,     0,   325,
-     326,   327,   328,   329,   330,     0,   331,  -213,  -215,  -213,
-       0,  -213,  -213,     0,  -215,     0,     0,   311,  -215,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -215,
-       0,     0,  -215,     0,  -215,  -215,     0,     0,     0,  -215,
-       0,  -215,  -215,     0,  -215,  -215,  -215,     0,     0,     0,
-       0,     0,     0,  -215,     0,  -215,     0,  -215,  -215,     0,
-       0,     0,  -215,  -215,     0,     0,     0,     0,     0,     0,
-       0,     0,  -215,     0,     0,  -215,  -215,     0,     0,  -215,
-    -215,  -215,  -215,     0,  -215,     0,     0,     0,  -215,     0,
-       0,  -215,   315,     0,  -215,  -215,     0,     0,     0,   316,
+       0,     0,  -241,     0,     0,  -241,     0,     0,  -240,  -240,
+    -240,  -241,     0,     0,     0,     0,     0,     0,     0,  -241,
+    -240,  -240,  -240,     0,     0,     0,     0,     0,  -241,     0,
+     330,   331,   332,   333,   334,   335,     0,   336,  -240,     0,
+    -240,     0,  -240,  -240,     0,     0,     0,  -241,     0,     0,
+       0,     0,     0,  -241,     0,     0,   316,  -241,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -241,     0,
+       0,  -241,     0,  -241,  -241,     0,     0,     0,  -241,     0,
+    -241,  -241,     0,  -241,  -241,  -241,     0,     0,     0,     0,
+       0,     0,  -241,     0,  -241,     0,  -241,  -241,     0,     0,
+       0,  -241,  -241,  -241,     0,     0,     0,     0,     0,     0,
+       0,  -241,     0,     0,  -241,  -241,     0,     0,  -241,  -241,
+    -241,  -241,     0,  -241,     0,     0,     0,  -241,     0,     0,
+    -241,   320,     0,  -241,  -241,     0,     0,     0,   321,  -241,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -214,     0,
+       0,  -214,     0,     0,  -241,  -241,  -241,  -214,     0,     0,
+       0,     0,     0,     0,     0,  -214,  -241,  -241,  -241,     0,
+       0,     0,     0,     0,  -214,     0,   330,   331,   332,   333,
+     334,   335,     0,   336,  -241,     0,  -241,     0,  -241,  -241,
+       0,     0,     0,  -214,     0,     0,     0,     0,     0,  -214,
+       0,     0,   316,  -214,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -214,     0,     0,  -214,     0,  -214,
+    -214,     0,     0,     0,  -214,     0,  -214,  -214,     0,  -214,
+    -214,  -214,     0,     0,     0,     0,     0,     0,  -214,     0,
+    -214,     0,  -214,  -214,     0,     0,     0,  -214,  -214,     0,
+       0,     0,     0,     0,     0,     0,     0,  -214,     0,     0,
+    -214,  -214,     0,     0,  -214,  -214,  -214,  -214,     0,  -214,
+       0,     0,     0,  -214,     0,     0,  -214,   320,     0,  -214,
+    -214,     0,     0,     0,   321,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -216,     0,     0,  -216,
+       0,     0,     0,     0,     0,  -216,     0,     0,     0,     0,
+    -214,  -214,  -214,  -216,     0,     0,     0,     0,     0,     0,
+       0,     0,  -216,     0,     0,   326,   327,     0,     0,   328,
+     329,     0,   330,   331,   332,   333,   334,   335,     0,   336,
+    -214,  -216,  -214,     0,  -214,  -214,     0,  -216,     0,     0,
+     316,  -216,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -216,     0,     0,  -216,     0,  -216,  -216,     0,
+       0,     0,  -216,     0,  -216,  -216,     0,  -216,  -216,  -216,
+       0,     0,     0,     0,     0,     0,  -216,     0,  -216,     0,
+    -216,  -216,     0,     0,     0,  -216,  -216,     0,     0,     0,
+       0,     0,     0,     0,     0,  -216,     0,     0,  -216,  -216,
+       0,     0,  -216,  -216,  -216,  -216,     0,  -216,     0,     0,
+       0,  -216,     0,     0,  -216,   320,     0,  -216,  -216,     0,
+       0,     0,   321,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -235,     0,     0,  -235,     0,     0,
+       0,     0,     0,  -235,     0,     0,     0,     0,  -216,  -216,
+    -216,  -235,     0,     0,     0,     0,     0,     0,     0,     0,
+    -235,     0,     0,   326,   327,     0,     0,   328,   329,     0,
+     330,   331,   332,   333,   334,   335,     0,   336,  -216,  -235,
+    -216,     0,  -216,  -216,     0,  -235,     0,     0,   316,  -235,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -231,     0,     0,  -231,     0,     0,     0,     0,     0,
-    -231,     0,     0,     0,     0,  -215,  -215,  -215,  -231,     0,
-       0,     0,     0,     0,     0,     0,     0,  -231,     0,     0,
-     321,   322,     0,     0,   323,   324,     0,   325,   326,   327,
-     328,   329,   330,     0,   331,  -215,  -231,  -215,     0,  -215,
-    -215,     0,  -231,     0,     0,   311,  -231,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -231,     0,     0,
-    -231,     0,  -231,  -231,     0,     0,     0,  -231,     0,  -231,
-    -231,     0,  -231,  -231,  -231,     0,     0,     0,     0,     0,
-       0,  -231,     0,  -231,     0,  -231,  -231,     0,     0,     0,
-    -231,  -231,     0,     0,     0,     0,     0,     0,     0,     0,
-    -231,     0,     0,  -231,  -231,     0,     0,  -231,  -231,  -231,
-    -231,     0,  -231,     0,     0,     0,  -231,     0,     0,  -231,
-     315,     0,  -231,  -231,     0,     0,     0,   316,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -232,
-       0,     0,  -232,     0,     0,     0,     0,     0,  -232,     0,
-       0,     0,     0,  -231,  -231,  -231,  -232,     0,     0,     0,
-       0,     0,     0,     0,     0,  -232,     0,     0,   321,   322,
-       0,     0,   323,   324,     0,   325,   326,   327,   328,   329,
-     330,     0,   331,  -231,  -232,  -231,     0,  -231,  -231,     0,
-    -232,     0,     0,   311,  -232,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -232,     0,     0,  -232,     0,
-    -232,  -232,     0,     0,     0,  -232,     0,  -232,  -232,     0,
-    -232,  -232,  -232,     0,     0,     0,     0,     0,     0,  -232,
-       0,  -232,     0,  -232,  -232,     0,     0,     0,  -232,  -232,
-       0,     0,     0,     0,     0,     0,     0,     0,  -232,     0,
-       0,  -232,  -232,     0,     0,  -232,  -232,  -232,  -232,     0,
-    -232,     0,     0,     0,  -232,     0,     0,  -232,   315,     0,
-    -232,  -232,     0,     0,     0,   316,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -233,     0,     0,
-    -233,     0,     0,     0,     0,     0,  -233,     0,     0,     0,
-       0,  -232,  -232,  -232,  -233,     0,     0,     0,     0,     0,
-       0,     0,     0,  -233,     0,     0,   321,   322,     0,     0,
-     323,   324,     0,   325,   326,   327,   328,   329,   330,     0,
-     331,  -232,  -233,  -232,     0,  -232,  -232,     0,  -233,     0,
-       0,   311,  -233,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -233,     0,     0,  -233,     0,  -233,  -233,
-       0,     0,     0,  -233,     0,  -233,  -233,     0,  -233,  -233,
-    -233,     0,     0,     0,     0,     0,     0,  -233,     0,  -233,
-       0,  -233,  -233,     0,     0,     0,  -233,  -233,     0,     0,
-       0,     0,     0,     0,     0,     0,  -233,     0,     0,  -233,
-    -233,     0,     0,  -233,  -233,  -233,  -233,     0,  -233,     0,
-       0,     0,  -233,     0,     0,  -233,   315,     0,  -233,  -233,
-       0,     0,     0,   316,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,  -214,     0,     0,  -214,     0,
-       0,     0,     0,     0,  -214,     0,     0,     0,     0,  -233,
-    -233,  -233,  -214,     0,     0,     0,     0,     0,     0,     0,
-       0,  -214,     0,     0,   321,   322,     0,     0,   323,   324,
-       0,   325,   326,   327,   328,   329,   330,     0,   331,  -233,
-    -214,  -233,     0,  -233,  -233,     0,  -214,     0,     0,   311,
-    -214,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -214,     0,     0,  -214,     0,  -214,  -214,     0,     0,
-       0,  -214,     0,  -214,  -214,     0,  -214,  -214,  -214,     0,
-       0,     0,     0,     0,  -145,  -214,     0,  -214,     0,  -214,
-    -214,     0,     0,  -145,  -214,  -214,     0,     0,     0,     0,
-       0,     0,     0,     0,  -214,     0,     0,  -214,  -214,     0,
-       0,  -214,  -214,  -214,  -214,     0,  -214,     0,     0,     0,
-    -214,     0,     0,  -214,   315,     0,  -214,  -214,     0,  -145,
-       0,   316,     0,     0,     0,     0,     0,     0,     0,  -145,
-       0,     0,     0,  -217,     0,     0,  -217,     0,     0,     0,
-       0,     0,  -217,  -145,     0,     0,  -145,  -214,  -214,  -214,
-    -145,     0,     0,     0,     0,  -145,     0,  -145,     0,  -217,
-       0,     0,   321,   322,     0,     0,   323,   324,   350,   325,
-     326,   327,   328,   329,   330,     0,   331,  -214,  -217,  -214,
-       0,  -214,  -214,     0,  -217,     0,     0,  -145,  -217,     0,
-       0,     0,     0,  -145,     0,     0,     0,     0,     0,  -217,
-       0,     0,  -217,     0,  -217,  -217,     0,     0,     0,  -217,
-       0,  -217,  -217,     0,  -217,  -217,  -217,     0,     0,     0,
-       0,     0,     0,  -217,     0,  -217,     0,  -217,  -217,     0,
-       0,     0,  -217,  -217,     0,     0,     0,     0,  -151,     0,
-       0,     0,  -217,     0,     0,  -217,  -217,  -151,     0,  -217,
-    -217,  -217,  -217,     0,     0,     0,     0,     0,  -217,     0,
-       0,     0,     0,     0,  -217,  -217,  -218,     0,  -145,  -218,
-    -145,     0,     0,     0,     0,  -218,     0,     0,     0,     0,
-       0,     0,     0,  -151,     0,     0,     0,     0,     0,     0,
-       0,     0,  -218,  -151,     0,  -217,  -217,  -217,     0,     0,
+    -235,     0,     0,  -235,     0,  -235,  -235,     0,     0,     0,
+    -235,     0,  -235,  -235,     0,  -235,  -235,  -235,     0,     0,
+       0,     0,     0,     0,  -235,     0,  -235,     0,  -235,  -235,
+       0,     0,     0,  -235,  -235,     0,     0,     0,     0,     0,
+       0,     0,     0,  -235,     0,     0,  -235,  -235,     0,     0,
+    -235,  -235,  -235,  -235,     0,  -235,     0,     0,     0,  -235,
+       0,     0,  -235,   320,     0,  -235,  -235,     0,     0,     0,
+     321,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -236,     0,     0,  -236,     0,     0,     0,     0,
+       0,  -236,     0,     0,     0,     0,  -235,  -235,  -235,  -236,
+       0,     0,     0,     0,     0,     0,     0,     0,  -236,     0,
+       0,   326,   327,     0,     0,   328,   329,     0,   330,   331,
+     332,   333,   334,   335,     0,   336,  -235,  -236,  -235,     0,
+    -235,  -235,     0,  -236,     0,     0,   316,  -236,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -236,     0,
+       0,  -236,     0,  -236,  -236,     0,     0,     0,  -236,     0,
+    -236,  -236,     0,  -236,  -236,  -236,     0,     0,     0,     0,
+       0,     0,  -236,     0,  -236,     0,  -236,  -236,     0,     0,
+       0,  -236,  -236,     0,     0,     0,     0,     0,     0,     0,
+       0,  -236,     0,     0,  -236,  -236,     0,     0,  -236,  -236,
+    -236,  -236,     0,  -236,     0,     0,     0,  -236,     0,     0,
+    -236,   320,     0,  -236,  -236,     0,     0,     0,   321,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-    -151,  -218,     0,     0,  -151,     0,     0,  -218,     0,  -151,
-       0,  -218,     0,     0,     0,  -217,     0,  -217,     0,  -217,
-    -217,  -150,  -218,     0,     0,  -218,     0,  -218,  -218,     0,
-    -150,     0,  -218,     0,  -218,  -218,     0,  -218,  -218,  -218,
-       0,  -151,     0,     0,   308,     0,  -218,  -151,  -218,     0,
+    -237,     0,     0,  -237,     0,     0,     0,     0,     0,  -237,
+       0,     0,     0,     0,  -236,  -236,  -236,  -237,     0,     0,
+       0,     0,     0,     0,     0,     0,  -237,     0,     0,   326,
+     327,     0,     0,   328,   329,     0,   330,   331,   332,   333,
+     334,   335,     0,   336,  -236,  -237,  -236,     0,  -236,  -236,
+       0,  -237,     0,     0,   316,  -237,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -237,     0,     0,  -237,
+       0,  -237,  -237,     0,     0,     0,  -237,     0,  -237,  -237,
+       0,  -237,  -237,  -237,     0,     0,     0,     0,     0,     0,
+    -237,     0,  -237,     0,  -237,  -237,     0,     0,     0,  -237,
+    -237,     0,     0,     0,     0,     0,     0,     0,     0,  -237,
+       0,     0,  -237,  -237,     0,     0,  -237,  -237,  -237,  -237,
+       0,  -237,     0,     0,     0,  -237,     0,     0,  -237,   320,
+       0,  -237,  -237,     0,     0,     0,   321,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -215,     0,
+       0,  -215,     0,     0,     0,     0,     0,  -215,     0,     0,
+       0,     0,  -237,  -237,  -237,  -215,     0,     0,     0,     0,
+       0,     0,     0,     0,  -215,     0,     0,   326,   327,     0,
+       0,   328,   329,     0,   330,   331,   332,   333,   334,   335,
+       0,   336,  -237,  -215,  -237,     0,  -237,  -237,     0,  -215,
+       0,     0,   316,  -215,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -215,     0,     0,  -215,     0,  -215,
+    -215,     0,     0,     0,  -215,     0,  -215,  -215,     0,  -215,
+    -215,  -215,     0,     0,     0,     0,     0,  -147,  -215,     0,
+    -215,     0,  -215,  -215,     0,     0,  -147,  -215,  -215,     0,
+       0,     0,     0,     0,     0,     0,     0,  -215,     0,     0,
+    -215,  -215,     0,     0,  -215,  -215,  -215,  -215,     0,  -215,
+       0,     0,     0,  -215,     0,     0,  -215,   320,     0,  -215,
+    -215,     0,  -147,     0,   321,     0,     0,     0,     0,     0,
+       0,     0,  -147,     0,     0,     0,  -218,     0,     0,  -218,
+       0,     0,     0,     0,     0,  -218,  -147,     0,     0,  -147,
+    -215,  -215,  -215,  -147,     0,     0,     0,     0,  -147,     0,
+       0,     0,  -218,     0,     0,   326,   327,     0,     0,   328,
+     329,     0,   330,   331,   332,   333,   334,   335,     0,   336,
+    -215,  -218,  -215,     0,  -215,  -215,     0,  -218,     0,     0,
+    -147,  -218,     0,   313,     0,     0,  -147,     0,     0,     0,
+       0,     0,  -218,     0,     0,  -218,     0,  -218,  -218,   314,
+       0,     0,  -218,     0,  -218,  -218,     0,  -218,  -218,  -218,
+       0,     0,     0,     0,     0,     0,  -218,     0,  -218,     0,
     -218,  -218,     0,     0,     0,  -218,  -218,     0,     0,     0,
-     309,     0,     0,     0,     0,  -218,  -150,     0,  -218,  -218,
-       0,     0,   308,  -218,  -218,  -218,  -150,     0,     0,     0,
-       0,  -218,     0,     0,     0,     0,     0,  -218,  -218,     0,
-     544,  -309,     0,  -150,  -309,     0,     0,  -150,     0,     0,
-    -309,     0,  -150,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -309,  -218,  -218,
-    -218,     0,  -151,     0,  -151,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -150,     0,  -309,     0,     0,     0,
-    -150,     0,     0,     0,     0,     0,  -309,     0,  -218,  -309,
-    -218,     0,  -218,  -218,  -309,     0,     0,  -309,     0,     0,
-    -309,     0,  -309,  -309,     0,     0,     0,  -309,     0,  -309,
-    -309,     0,  -309,  -309,  -309,     0,     0,     0,     0,     0,
-       0,     0,  -309,     0,     0,  -309,  -309,     0,     0,     0,
-    -309,  -309,     0,     0,     0,  -309,     0,  -353,     0,     0,
-       0,     0,     0,     0,  -309,     0,  -353,     0,     0,     0,
-    -309,     0,  -309,     0,  -309,  -150,  -309,  -150,     0,     0,
-       0,     0,  -309,  -353,  -309,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,  -317,     0,     0,     0,
-       0,     0,  -353,     0,     0,  -317,     0,     0,     0,     0,
-       0,     0,  -353,     0,     0,     0,     0,     0,     0,     0,
-    -309,  -309,  -317,  -353,  -309,     0,  -353,     0,  -353,  -353,
-       0,     0,     0,  -353,     0,  -353,  -353,     0,  -353,  -353,
-    -353,  -317,     0,     0,  -309,  -309,    80,  -309,  -309,     0,
-       0,  -317,  -353,     0,     0,     0,  -353,  -353,     0,     0,
-       0,     0,  -317,     0,     0,  -317,     0,  -317,  -317,     0,
-    -353,     0,  -317,   308,  -317,  -317,  -353,  -317,  -317,  -317,
-       0,     0,     0,  -320,     0,     0,   354,     0,  -353,   309,
-       0,  -317,  -320,     0,     0,  -317,  -317,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -317,
-       0,     0,     0,     0,     0,  -317,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,  -317,  -320,     0,
-       0,     0,     0,     0,  -320,     0,     0,     0,  -320,     0,
+       0,  -151,     0,     0,     0,  -218,     0,     0,  -218,  -218,
+    -151,     0,  -218,  -218,  -218,  -218,     0,     0,     0,     0,
+       0,  -218,     0,     0,     0,     0,     0,  -218,  -218,  -219,
+       0,  -147,  -219,  -147,     0,     0,     0,     0,  -219,     0,
+       0,     0,     0,     0,     0,     0,  -151,     0,     0,     0,
+       0,     0,     0,     0,     0,  -219,  -151,     0,  -218,  -218,
+    -218,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -151,  -219,     0,     0,  -151,     0,     0,
+    -219,     0,  -151,     0,  -219,     0,     0,     0,  -218,     0,
+    -218,     0,  -218,  -218,  -145,  -219,     0,     0,  -219,     0,
+    -219,  -219,     0,  -145,     0,  -219,     0,  -219,  -219,     0,
+    -219,  -219,  -219,     0,  -151,     0,     0,   313,     0,  -219,
+    -151,  -219,     0,  -219,  -219,     0,     0,     0,  -219,  -219,
+       0,     0,     0,   314,     0,     0,     0,     0,  -219,  -145,
+       0,  -219,  -219,     0,     0,   313,  -219,  -219,  -219,  -145,
+       0,     0,     0,     0,  -219,     0,     0,     0,     0,     0,
+    -219,  -219,     0,  -145,  -313,     0,  -145,  -313,     0,     0,
+    -145,     0,     0,  -313,     0,  -145,     0,  -145,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   355,     0,
+    -313,  -219,  -219,  -219,     0,  -151,     0,  -151,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,  -145,     0,  -313,
+       0,     0,     0,  -145,     0,     0,     0,     0,     0,  -313,
+       0,  -219,  -313,  -219,     0,  -219,  -219,  -313,     0,     0,
+    -313,     0,     0,  -313,     0,  -313,  -313,     0,     0,     0,
+    -313,     0,  -313,  -313,     0,  -313,  -313,  -313,     0,     0,
+       0,     0,     0,     0,     0,  -313,     0,     0,  -313,  -313,
+       0,     0,     0,  -313,  -313,     0,     0,     0,  -313,     0,
+    -320,     0,     0,   359,     0,     0,     0,  -313,     0,  -320,
+       0,     0,     0,  -313,     0,  -313,     0,  -313,  -145,  -313,
+    -145,     0,     0,     0,     0,  -313,  -320,  -313,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -357,
+       0,     0,     0,     0,     0,  -320,     0,     0,  -357,     0,
+       0,     0,     0,     0,     0,  -320,     0,     0,     0,     0,
+       0,     0,     0,  -313,  -313,  -357,  -320,  -313,     0,  -320,
+       0,  -320,  -320,     0,     0,     0,  -320,     0,  -320,  -320,
+       0,  -320,  -320,  -320,  -357,     0,     0,  -313,  -313,    80,
+    -313,  -313,     0,     0,  -357,  -320,     0,     0,     0,  -320,
+    -320,     0,     0,     0,     0,  -357,     0,     0,  -357,     0,
+    -357,  -357,     0,  -320,     0,  -357,     0,  -357,  -357,  -320,
+    -357,  -357,  -357,     0,     0,   546,     0,     0,     0,     0,
+       0,  -320,     0,     0,  -357,     0,     0,     0,  -357,  -357,
+       0,     0,     0,     0,     0,     0,     0,  -321,     0,     0,
+       0,     0,  -357,     0,     0,   313,  -321,     0,  -357,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,  -353,  -320,  -353,  -353,  -320,     0,     0,     0,  -320,
-       0,     0,     0,     0,  -320,     0,  -320,     0,     0,     0,
-       0,     0,  -299,     0,     0,     0,     0,  -320,     0,     0,
-       0,  -299,     0,     0,     0,     0,     0,     0,     0,   616,
-    -317,     0,  -317,  -317,     0,     0,  -320,     0,   531,   308,
-       0,     0,  -320,     0,     0,     0,     0,     0,   355,     0,
-       0,     0,     0,     0,     0,   309,     0,  -299,     0,     0,
-       0,     0,     0,  -300,     0,     0,     0,  -299,     0,     0,
-       0,     0,  -300,     0,     0,     0,     0,     0,   532,     0,
-       0,  -299,     0,   533,  -299,  -320,  -320,  -320,  -299,   531,
-     534,   535,     0,  -299,     0,  -299,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,   536,  -300,     0,
-       0,  -352,   537,     0,     0,  -320,     0,  -320,  -300,  -320,
-    -320,     0,     0,     0,     0,  -299,     0,     0,     0,   532,
-       0,  -299,  -300,     0,   533,  -300,     0,     0,     0,  -300,
-       0,   534,   535,     0,  -300,     0,  -300,  -164,  -164,  -164,
-    -164,     0,     0,     0,     0,     0,  -164,     0,   536,     0,
-       0,     0,  -352,   537,     0,     0,     0,     0,  -142,  -142,
-    -142,  -142,     0,     0,     0,     0,  -300,   173,     0,     0,
-       0,     0,  -300,     0,     0,     0,     0,     0,     0,     0,
-    -164,  -164,  -164,     0,     0,     0,  -142,  -142,  -142,  -142,
-       0,     0,     0,     0,     0,   173,  -299,     0,  -299,  -305,
-       0,  -142,  -142,  -142,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,  -164,
-       0,     0,  -164,     0,     0,     0,     0,     0,     0,  -142,
-    -142,  -142,     0,     0,     0,     0,     0,     0,  -164,     0,
-    -142,     0,     0,  -142,     0,     0,     0,  -300,     0,  -300,
-    -306,     0,     0,     0,     0,  -164,     0,     0,   107,  -142,
-       0,     0,     0,     0,     0,     0,     0,     0,  -142,  -164,
-       0,  -142,  -142,  -142,  -142,  -142,  -142,     0,     0,     0,
-       0,   173,     0,     0,  -164,  -164,  -164,  -142,     0,     0,
-    -142,     0,     0,   214,   118,   119,   120,     0,     0,     0,
-       0,     0,     0,     0,  -142,  -142,  -142,  -142,     0,     0,
-       0,     0,     0,     0,     0,  -142,  -142,  -142,  -142,  -164,
-    -164,   214,   118,   119,   120,     0,     0,  -164,     0,     0,
-       0,     0,  -164,  -142,  -142,  -142,   215,   216,   217,     0,
-    -142,  -142,   214,   118,   119,   120,     0,     0,  -142,   401,
-       0,     0,     0,  -142,  -142,     0,     0,  -142,     0,     0,
-       0,     0,     0,     0,   215,   216,   217,     0,  -142,  -142,
-       0,     0,     0,  -142,     0,   218,  -142,   567,   122,     0,
-       0,  -142,     0,     0,     0,   215,   216,   217,     0,     0,
-    -142,     0,     0,     0,   123,     0,     0,    75,     0,     0,
-       0,     0,     0,   218,  -142,   272,   122,     0,     0,     0,
-       0,   219,     0,   214,   118,   119,   120,     0,     0,  -142,
-    -142,  -142,   123,     0,   218,   220,     0,   122,     0,     0,
-     298,     0,     0,     0,     0,   214,   118,   119,   120,   219,
-     124,   125,   126,   123,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   220,  -142,  -142,   215,   216,   217,     0,
-     219,     0,  -142,     0,     0,     0,     0,  -142,   124,   125,
-     126,     0,     0,     0,   220,   221,   222,     0,   301,   216,
-     217,     0,     0,   223,   214,   118,   119,   120,   128,   124,
-     125,   126,     0,     0,     0,   218,     0,     0,   122,     0,
-       0,     0,     0,   221,   222,     0,     0,     0,     0,     0,
-       0,   223,     0,     0,   123,     0,   128,   218,     0,     0,
-     122,     0,     0,     0,   221,   222,     0,     0,   216,   217,
-       0,   219,   223,     0,     0,     0,   123,   128,     0,     0,
-       0,     0,     0,     0,     0,   220,     0,     0,     0,     0,
-       0,     0,     0,   302,     0,     0,     0,     0,     0,     0,
-     124,   125,   126,     0,     0,     0,   218,   220,     0,   122,
+    -357,   314,  -303,  -321,     0,     0,     0,     0,     0,     0,
+       0,  -303,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -321,     0,  -320,     0,  -320,  -320,   537,     0,
+       0,     0,  -321,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,  -321,     0,     0,  -321,  -303,  -321,  -321,
+       0,     0,     0,  -321,     0,  -321,  -321,  -303,  -321,  -321,
+    -321,     0,     0,  -357,     0,  -357,  -357,     0,   538,     0,
+       0,  -303,  -321,   539,  -303,     0,  -321,  -321,  -303,     0,
+     540,   541,     0,  -303,  -304,  -303,     0,     0,     0,     0,
+    -321,     0,     0,  -304,     0,     0,  -321,   542,     0,     0,
+       0,  -356,   543,     0,     0,     0,     0,     0,  -321,  -150,
+     537,     0,     0,     0,     0,  -303,     0,     0,  -150,     0,
+       0,  -303,     0,     0,     0,     0,     0,     0,     0,  -304,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,  -304,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   124,   125,   126,   123,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,   221,   222,  -354,     0,     0,
-       0,     0,   302,   223,     1,     0,     0,     0,   128,     0,
-       0,     0,     2,     0,     0,     0,   220,   221,   222,     3,
-       0,     0,     0,     0,     4,   223,     0,     1,     0,     0,
-     128,   124,   125,   126,     5,     2,     0,     6,     7,     0,
-       0,     0,     3,     0,     0,     0,     0,     4,     0,     8,
-       9,     0,     0,     0,     0,  -335,     0,     5,     0,    10,
-       6,     7,    11,     0,     0,     0,   221,   222,     0,     0,
-       0,     0,     8,     9,   223,     0,     0,     0,  -335,   128,
-       0,     0,    10,     0,    12,    11,     0,     0,    13,     0,
-       0,     0,     0,     0,   376,     0,     0,     0,   311,     0,
-       0,     0,     0,     0,    14,     0,     0,    12,   377,     0,
-      15,    13,   378,   379,   380,   381,   382,     0,   383,     0,
-       0,     0,     0,     0,     0,     0,   384,    14,     0,     0,
-       0,     0,     0,    15,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,   312,     0,     0,     0,     0,
-       0,   385,    16,    17,    18,     0,     0,     0,     0,     0,
-     516,     0,     0,     0,     0,   414,     0,     0,     0,   386,
-       0,   387,   388,   315,     0,    16,    17,    18,     0,     0,
-     316,   317,     0,     0,     0,     0,   389,     0,     0,     0,
-    -335,   390,     0,   391,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,   392,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,  -335,     0,     0,     0,     0,   318,   319,
-     320,   321,   322,     0,     0,   323,   324,     0,   325,   326,
-     327,   328,   329,   330,     0,   331,   393
+     538,     0,     0,  -304,  -150,   539,  -304,     0,     0,     0,
+    -304,     0,   540,   541,  -150,  -304,     0,  -304,     0,     0,
+     622,  -321,     0,  -321,  -321,     0,     0,     0,   550,   542,
+       0,  -150,     0,  -356,   543,  -150,  -164,  -164,  -164,  -164,
+    -150,     0,     0,     0,     0,  -164,  -303,  -304,  -303,  -309,
+       0,     0,     0,  -304,     0,     0,     0,  -142,  -142,  -142,
+    -142,  -142,  -142,  -142,  -142,     0,   173,     0,     0,     0,
+     173,     0,  -150,     0,     0,     0,     0,     0,  -150,  -164,
+    -164,  -164,     0,     0,     0,     0,     0,     0,     0,  -142,
+    -142,  -142,  -142,     0,     0,     0,     0,     0,   173,     0,
+    -142,  -142,  -142,     0,  -142,  -142,  -142,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,  -164,     0,
+       0,  -164,     0,     0,     0,     0,     0,     0,  -304,     0,
+    -304,  -310,  -142,  -142,  -142,     0,     0,  -164,     0,  -142,
+       0,     0,  -142,  -142,     0,     0,  -142,     0,     0,     0,
+       0,     0,     0,  -150,  -164,  -150,     0,   107,  -142,     0,
+       0,     0,  -142,     0,     0,     0,     0,     0,  -164,     0,
+       0,  -142,     0,     0,  -142,  -142,     0,     0,     0,  -142,
+       0,     0,     0,  -164,  -164,  -164,     0,     0,     0,  -142,
+    -142,     0,     0,  -142,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -142,  -142,  -142,  -142,  -142,  -142,
+    -142,     0,     0,     0,   214,   118,   119,   120,  -164,  -164,
+       0,  -142,     0,     0,     0,     0,  -164,     0,     0,     0,
+       0,  -164,   214,   118,   119,   120,  -142,  -142,  -142,  -142,
+    -142,     0,     0,  -142,  -142,     0,     0,  -142,   406,     0,
+       0,  -142,  -142,     0,     0,     0,  -142,   215,   216,   217,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,  -142,  -142,     0,     0,   215,   216,   217,     0,  -142,
+     573,     0,     0,     0,  -142,   214,   118,   119,   120,     0,
+       0,     0,     0,     0,     0,     0,   218,     0,     0,   122,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+     214,   118,   119,   120,   218,   123,     0,   122,     0,     0,
+       0,     0,     0,     0,     0,     0,   273,     0,   215,   216,
+     217,     0,   219,   123,     0,     0,     0,     0,     0,     0,
+      75,   299,     0,     0,     0,     0,   220,     0,     0,     0,
+     219,     0,     0,   215,   216,   217,     0,     0,     0,     0,
+       0,   124,   125,   126,   220,     0,     0,   218,     0,     0,
+     122,     0,     0,     0,     0,     0,     0,     0,     0,   124,
+     125,   126,     0,     0,     0,     0,   123,     0,     0,     0,
+       0,     0,   218,     0,     0,   122,   221,   222,     0,     0,
+       0,     0,     0,   219,   223,   214,   118,   119,   120,   128,
+       0,   123,     0,     0,   221,   222,     0,   220,     0,     0,
+       0,     0,   223,     0,     0,     0,     0,   128,   219,     0,
+       0,     0,   124,   125,   126,     0,     0,   214,   118,   119,
+     120,     0,   220,     0,     0,     0,     0,     0,   302,   216,
+     217,     0,     0,     0,     0,     0,     0,   124,   125,   126,
+       0,     0,     0,     0,     0,     0,     0,   221,   222,     0,
+       0,     0,     0,     0,     0,   223,   214,   118,   119,   120,
+     128,   216,   217,     0,     0,     0,     0,   218,     0,     0,
+     122,     0,   221,   222,     0,     0,     0,     0,     0,     0,
+     223,     0,     0,     0,     0,   128,   123,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,   218,
+     216,   217,   122,   303,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,   220,   123,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   124,   125,   126,   309,     0,     0,   218,     0,
+       0,   122,     0,     0,     0,     0,     0,     0,     0,   220,
+       0,     0,     0,     0,     0,     0,  -358,   123,     0,     0,
+       0,     0,     0,     1,   124,   125,   126,   221,   222,     0,
+       0,     2,     0,     0,   303,   223,     0,     0,     3,     0,
+     128,     0,     0,     4,     0,     0,     1,     0,   220,     0,
+       0,     0,     0,     5,     2,     0,     6,     7,     0,   221,
+     222,     3,     0,   124,   125,   126,     4,   223,     8,     9,
+       0,     0,   128,     0,  -339,     0,     5,     0,    10,     6,
+       7,    11,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     8,     9,     0,     0,     0,     0,  -339,   221,   222,
+       0,    10,     0,    12,    11,     0,   223,    13,     0,     0,
+       0,   128,     0,   381,     0,     0,     0,   316,     0,     0,
+       0,     0,     0,    14,     0,     0,    12,   382,     0,    15,
+      13,   383,   384,   385,   386,   387,     0,   388,     0,     0,
+       0,     0,     0,     0,     0,   389,    14,     0,     0,     0,
+       0,     0,    15,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,   317,     0,     0,     0,     0,     0,
+     390,    16,    17,    18,     0,     0,     0,     0,     0,   522,
+       0,     0,     0,     0,   421,     0,     0,     0,   391,     0,
+     392,   393,   320,     0,    16,    17,    18,     0,     0,   321,
+     322,     0,     0,     0,     0,   394,     0,     0,     0,  -339,
+     395,     0,   396,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   397,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,  -339,     0,     0,     0,     0,   323,   324,   325,
+     326,   327,     0,     0,   328,   329,     0,   330,   331,   332,
+     333,   334,   335,     0,   336,   398
 };
 
 static const yytype_int16 yycheck[] =
 {
-       2,   107,   149,     5,   175,    54,   148,   304,    10,   211,
-      12,   182,    57,    58,    59,   293,   342,     3,    97,    98,
-     374,     0,    58,    81,   203,    78,   112,     0,     3,   115,
-       6,   219,   115,   221,   181,    58,   183,   184,   495,     3,
-       6,   395,    58,     3,   539,     3,    48,     3,    50,    78,
-     125,    17,   155,     0,    19,     0,    70,    94,    60,     5,
-       6,    78,    94,     3,    27,     0,    80,    70,    58,     0,
-      99,   218,   151,    63,   335,   373,   223,    80,     0,   115,
-     101,    78,    99,    85,    86,   643,   347,     9,   125,   104,
-     292,    93,     3,   588,    94,    60,   654,   111,   100,   101,
-     247,   133,    99,     0,   153,   402,   121,   128,   111,    58,
-      83,     0,     9,   194,   302,    58,   197,   296,   193,     3,
-      63,   475,   310,    45,   312,   178,     3,   424,   316,   317,
-     318,   319,   320,   321,   322,   323,   324,   325,   326,   327,
-     328,   329,   330,   201,   601,   499,   500,    98,    45,   207,
-     297,   298,    83,   256,    51,     0,   193,   193,    55,    81,
-       0,   308,   309,     3,   113,     0,   113,   131,   113,     9,
-     193,   127,   119,     0,   223,    72,     3,   193,   113,    76,
-     266,   197,   113,   266,    81,     0,    26,   127,     3,   165,
-       3,   113,   168,     0,   169,   170,   171,     0,     0,   165,
-     186,   527,   168,   193,   150,    45,     0,   209,    80,   154,
-     508,   158,   159,   360,     0,    55,   113,   196,   365,   366,
-      55,   518,   119,   196,   113,   331,    66,   505,    55,    69,
-     119,    71,    72,   193,   422,   193,    76,    72,    78,    79,
-      55,    81,    82,    83,   193,    72,   295,   194,   351,   196,
-     197,   196,    55,    55,   456,    95,    94,    72,   193,    99,
-     100,   196,   616,   410,   411,   196,   197,    62,   113,     3,
-      72,   568,   194,   113,   196,    90,    83,   335,   113,   119,
-     166,   167,   636,   192,   119,   125,   113,   116,   197,   347,
-       0,   131,   119,   338,   591,     3,   375,   194,   113,   196,
-     197,   116,   117,   132,   119,   194,   113,   196,     3,   116,
-     113,   113,   194,   116,   127,   197,   119,   132,   131,   113,
-     566,   567,    94,   620,   123,   132,   116,   113,   516,   132,
-     332,     0,     3,   119,   125,   162,   163,   164,    97,   134,
-     133,   265,   132,     0,   130,     0,   270,   162,   163,   164,
-       3,   196,   194,    24,   194,   197,   196,   197,     4,   194,
-     507,   196,   509,   510,   413,   194,   161,   194,   121,   196,
-     197,     0,   158,   159,     3,   424,   622,   172,    49,   194,
-       9,   196,   197,     3,     0,     0,    55,    93,    17,   196,
-     197,   194,   194,   196,   196,    46,   116,    26,    55,   193,
-       3,     3,   196,    72,   194,   125,   194,    76,   194,    92,
-     196,   109,   132,     0,   194,    72,    45,   559,   116,    76,
-       4,    24,    51,     0,   193,    54,    55,   574,    83,   112,
-     193,    92,   603,   104,   132,   118,     6,    66,   194,    12,
-      69,   197,    71,    72,   113,   194,    49,    76,   197,    78,
-      79,   112,    81,    82,    83,   193,   113,   118,   113,   166,
-     167,    90,   119,    92,    37,    94,    95,    83,    55,   518,
-      99,   100,   101,     0,   162,   163,   164,   624,    55,   626,
-     109,    54,   126,   112,   113,    72,    76,   116,   117,   118,
-     119,   493,   121,    17,    18,     4,   125,   113,   113,   128,
-     129,   104,   131,   132,   119,     4,   194,   136,   137,   138,
-     139,   140,   141,   142,   143,   144,   145,   146,   147,   148,
-     149,   109,     0,   163,   164,   194,   113,   196,   116,   194,
-     103,    46,   119,   162,   163,   164,   113,   194,   193,   196,
-     194,   196,   119,   197,   132,   174,   175,   176,   177,   178,
-     193,   194,   181,   182,   197,   184,   185,   186,   187,   188,
-     189,     0,   191,   192,     3,   194,   131,   196,   197,   116,
-       9,   118,   162,   163,   164,   162,   163,   164,    17,   194,
-     196,   196,   116,     3,   118,   132,   113,    26,   174,   116,
-     194,   112,   119,   197,     0,   116,   194,    76,   132,   197,
-     194,    46,    47,   197,   194,   132,    45,   194,    91,   196,
-     197,   132,    51,     3,     3,    54,    55,   194,   125,   196,
-     138,   139,   140,   141,   142,   143,   105,    66,   194,   193,
-      69,   197,    71,    72,   193,   113,   193,    76,   116,    78,
-      79,   119,    81,    82,    83,    76,   194,   191,    98,   197,
-     193,    90,    39,    92,   132,    94,    95,   193,   125,    93,
-      99,   100,   101,   194,   172,   194,   197,   194,   197,   196,
-     109,   172,   194,   112,   113,   197,   193,   116,   117,   118,
-     119,   193,   121,   162,   163,   164,   125,    58,    92,   128,
-     129,   194,   131,   132,   197,   193,   193,   136,   137,   138,
-     139,   140,   141,   142,   143,   194,   194,   113,   112,   197,
-     116,     3,   116,   119,   118,   194,   194,   194,   196,   194,
-     197,     4,   197,   162,   163,   164,   132,     4,   132,     4,
-      26,   162,   163,   164,     3,   174,   175,   176,   177,   178,
-     172,    92,   181,   182,   161,   184,   185,   186,   187,   188,
-     189,     0,   191,   192,     3,   194,   194,   196,   197,   197,
-       9,   112,    94,   194,   193,   116,   197,   118,    17,   193,
-      66,   193,   193,   101,   193,    71,   194,    26,   193,   104,
-     192,   132,    78,    79,     3,     3,    82,   197,   194,    62,
-     196,   160,   194,     6,     6,     6,    45,     6,     6,    95,
-     104,   193,    51,    99,   100,    54,    55,   172,   194,   104,
-     194,     4,   194,    99,    99,     3,   126,    66,   194,   194,
-      69,   194,    71,    72,   194,     6,   121,    76,   194,    78,
-      79,   194,    81,    82,    83,   131,   173,   126,   194,   193,
-       0,    90,   194,    92,   116,    94,    95,    70,    24,     9,
-      99,   100,   101,   349,   339,   248,   453,   399,   495,   207,
-     109,   201,   353,   112,   113,   360,   299,   116,   117,   118,
-     119,   127,   121,   127,   169,   170,   125,   364,   173,   128,
-     129,   584,   131,   132,   583,    45,   264,   136,   137,   548,
-     104,   276,    -1,    -1,    -1,    55,    -1,    -1,   193,   194,
-      -1,    -1,   197,    -1,    -1,    -1,     4,     5,     6,    69,
-       0,    -1,    72,   162,   163,   164,    76,    -1,    -1,     9,
-      -1,    81,    -1,    83,    -1,   174,   175,   176,   177,   178,
-      -1,    -1,   181,   182,    94,   184,   185,   186,   187,   188,
-     189,    -1,   191,   192,   193,   194,   195,   196,   197,     0,
-      48,    -1,     3,   113,    -1,    45,    -1,    -1,     9,   119,
-      -1,    -1,    -1,    -1,    -1,    55,    17,    -1,    -1,    -1,
-      -1,    -1,     4,     5,     6,    26,    -1,    -1,    -1,    69,
-      -1,    -1,    72,    -1,    -1,    -1,    76,    -1,    -1,    -1,
-      88,    81,    -1,    83,    45,    -1,    -1,    -1,    -1,    -1,
-      51,    -1,    -1,    54,    55,    -1,   104,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    66,    48,    -1,    69,    -1,
-      71,    72,    -1,   113,    -1,    76,    77,    78,    79,   119,
-      81,    82,    83,    -1,   194,    -1,   196,   197,    -1,    90,
-      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
-     101,    -1,   150,   151,   152,    -1,    88,    -1,   109,    -1,
-      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
-     121,    -1,   104,    -1,   125,    -1,    -1,   128,   129,    -1,
-     131,   132,    -1,    -1,    -1,   136,   137,   185,    -1,    -1,
-      -1,    -1,   104,    -1,    -1,    -1,   194,    -1,   104,    -1,
-     198,    -1,    -1,    -1,   194,   104,   196,    -1,    -1,   121,
-      -1,   162,   163,   164,    -1,   121,    -1,    -1,   150,   151,
-     152,    -1,   121,   174,   175,   176,   177,   178,    -1,    -1,
-     181,   182,    -1,   184,   185,   186,   187,   188,   189,     0,
-     191,   192,     3,   194,    -1,   196,   197,    -1,     9,    -1,
-      -1,    -1,    -1,   185,    -1,    -1,    17,   169,   170,    -1,
-      -1,   173,    -1,   169,   170,    26,   198,   173,    -1,     0,
-     169,   170,    -1,    -1,   173,    -1,    -1,    -1,     9,    -1,
-      -1,   193,   194,    -1,    45,   197,    -1,   193,   194,    -1,
-      51,   197,    -1,    54,    55,   194,   104,    -1,   197,     4,
-       5,     6,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
-      71,    72,    -1,   121,    45,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    55,    -1,    -1,    -1,    -1,    90,
-      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
-     101,    72,    -1,    -1,    -1,    76,    -1,    -1,   109,    -1,
-      81,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
-     121,   169,   170,    -1,   125,   173,    -1,   128,   129,    -1,
-     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
-      -1,    -1,   113,    88,    -1,    -1,   194,    -1,   119,   197,
-      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,   104,
-      -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   174,   175,   176,   177,   178,    -1,    -1,
-     181,   182,    -1,   184,   185,   186,   187,   188,   189,    -1,
-     191,   192,   193,   194,     0,   196,   197,     3,    -1,    -1,
-      45,    -1,    -1,     9,    -1,   150,   151,   152,    -1,    -1,
-      55,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,   194,    69,   196,    -1,    72,    -1,    -1,
-      -1,    76,    -1,    -1,    -1,    -1,    81,    -1,    -1,    45,
-     185,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
-      -1,    -1,    -1,   198,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,   113,    -1,
-      76,   116,    78,    79,   119,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,   132,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   194,
-      -1,   196,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,     0,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+       2,   149,    54,     5,   175,   148,    97,    98,    10,   308,
+      12,   182,   211,    57,    58,    59,   294,   107,     0,   155,
+       0,   379,   115,    58,    58,   347,    58,     6,   378,     3,
+     219,     3,   221,   181,    81,   183,   184,     3,    17,     3,
+       3,    19,   400,     3,     0,    58,    48,   501,    50,   112,
+      63,     3,   115,   545,     0,     3,     0,    58,    60,   101,
+     151,     3,     0,     0,    78,    12,   572,   573,   340,   109,
+     218,   116,    24,    94,    94,   223,   116,     0,    70,   104,
+     352,   115,    60,    85,    86,    99,   128,   132,    80,   203,
+      37,    93,   132,    27,   293,    78,   121,    49,   100,   101,
+     248,   153,   594,    83,   125,     0,   192,    54,   407,     5,
+       6,   197,   113,   133,   303,     0,    99,    55,     3,   111,
+     309,   257,   628,   481,     3,     0,   315,    83,   317,     3,
+       0,   430,   321,   322,   323,   324,   325,   326,   327,   328,
+     329,   330,   331,   332,   333,   334,   335,   505,   506,   194,
+     298,   299,   104,   607,   201,     6,   103,   113,   193,   193,
+     207,   193,   197,   127,   514,   313,   314,   113,   131,   113,
+      55,   223,   193,   119,   267,   113,   113,     0,   116,   116,
+     193,   119,   119,   297,   130,    55,   165,    72,    83,   168,
+     113,     0,   193,     0,   132,   132,   119,   169,   170,   171,
+       0,    94,    72,     3,   267,    90,    76,   209,    83,     9,
+       0,   533,   158,   159,   196,     0,   196,   365,   113,   193,
+     356,   116,   370,   371,     9,   524,   186,   193,   113,    94,
+       0,   116,   117,   511,   119,   158,   159,   132,   113,   428,
+     196,   197,    78,   113,   296,    45,   336,   132,   194,   119,
+     196,    51,   196,   127,   150,    55,   194,   194,   196,   196,
+      45,   166,   167,   462,   622,    55,    51,   415,   416,    69,
+      55,   194,    72,   196,   197,   574,    76,   162,   163,   164,
+      62,    81,    72,    83,   642,     0,     3,    72,   125,   380,
+     113,    76,   116,   340,    94,    98,    81,    80,   597,   343,
+       0,   196,   197,     0,   113,   352,   113,     3,   132,   194,
+     119,   196,   197,   113,   165,    76,   116,   168,   193,   119,
+      78,   196,     3,   113,   194,   125,   196,   626,   113,   119,
+       3,   154,   132,   522,   119,   337,     0,   109,     0,   219,
+      55,    99,   178,   113,   116,     9,     0,   649,     0,   119,
+     219,    24,   134,   219,    58,    55,   193,    72,   660,    63,
+     132,    76,   162,   163,   164,   513,   418,   515,   516,    94,
+     194,     3,    72,   196,     0,   266,    49,     3,   430,   161,
+     271,    45,   123,     9,   133,   194,   193,   196,   125,   196,
+     172,    17,   192,     3,   194,    97,   196,   197,   113,     4,
+      26,   162,   163,   164,   194,   194,   196,   121,   197,   194,
+     127,   196,   197,   113,   131,    92,     0,    81,    93,    45,
+       3,    83,   565,   303,   194,    51,   196,   194,    54,    55,
+     197,   104,   580,   194,   303,   112,   197,   303,   609,    76,
+      66,   118,    46,    69,   194,    71,    72,   197,    70,   113,
+      76,   113,    78,    79,   194,    81,    82,    83,    80,   113,
+     194,   113,   116,   197,    90,   119,    92,   194,    94,    95,
+     197,    55,   524,    99,   100,   101,     0,     4,   132,   194,
+     193,   196,   630,   109,   632,   194,   112,   113,    72,   111,
+     116,   117,   118,   119,   194,   121,   196,   499,     3,   125,
+     193,   194,   128,   129,   197,   131,   132,   162,   163,   164,
+     136,   137,   138,   139,   140,   141,   142,   143,   144,   145,
+     146,   147,   148,   149,   193,   162,   163,   164,     6,   113,
+     194,   116,   196,   118,   196,   119,   162,   163,   164,   194,
+     194,   193,   196,   194,   196,   193,   197,   132,   174,   175,
+     176,   177,   178,   166,   167,   181,   182,   194,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,   126,
+     196,   197,   116,     9,   118,    17,    18,    92,   162,   163,
+     164,    17,   163,   164,     4,     5,     6,   112,   132,   113,
+      26,   116,   116,     4,    92,   119,     0,   112,     4,   194,
+      76,   116,   197,   118,   194,    46,    47,   132,   132,    45,
+     194,    46,   196,   197,   112,    51,   116,   132,    54,    55,
+     118,   194,   131,   194,   197,   125,   197,     3,    48,   105,
+      66,   194,   132,    69,   197,    71,    72,     4,     5,     6,
+      76,   194,    78,    79,   197,    81,    82,    83,   174,   194,
+       3,    55,   197,    91,    90,     3,    92,   194,    94,    95,
+     197,   125,   193,    99,   100,   101,   194,    98,    88,   197,
+     194,   194,   196,   109,   197,   194,   112,   113,   197,   193,
+     116,   117,   118,   119,   104,   121,   162,   163,   164,   125,
+     191,   194,   128,   129,   197,   131,   132,   193,   193,    39,
+     136,   137,   138,   139,   140,   141,   142,   143,   194,   113,
+     194,   197,   193,   197,   193,   119,   125,   172,   194,    93,
+     193,    88,   172,    58,   193,   193,   162,   163,   164,   194,
+     150,   151,   152,     3,   161,     4,     4,   104,   174,   175,
+     176,   177,   178,     4,     3,   181,   182,   172,   184,   185,
+     186,   187,   188,   189,     0,   191,   192,     3,   194,   193,
+     196,   197,    92,     9,   193,   185,   194,   193,    94,   193,
+     193,    17,   101,   104,   194,   193,   192,     3,   198,     3,
+      26,    62,   112,   150,   151,   152,   116,   197,   118,   160,
+     194,   194,   196,   138,   139,   140,   141,   142,   143,    45,
+       6,     6,   132,     6,     6,    51,     6,   104,    54,    55,
+     172,   104,   193,     4,   194,   194,   194,    99,   185,    99,
+      66,     3,   126,    69,   194,    71,    72,     6,   121,   194,
+      76,   198,    78,    79,   194,    81,    82,    83,   194,   194,
+     194,   173,   126,     0,    90,   194,    92,   193,    94,    95,
+     194,   116,     9,    99,   100,   101,    70,    24,   459,   344,
+     354,   404,   501,   109,   249,   207,   112,   113,   365,   358,
+     116,   117,   118,   119,   201,   121,   169,   170,   300,   125,
+     173,   589,   128,   129,   127,   131,   132,   127,    45,   590,
+     136,   137,   265,   277,   369,   554,   104,    -1,    55,    -1,
+     193,   194,    -1,    -1,   197,    -1,    -1,    -1,   104,     4,
+       5,     6,    69,     0,    26,    72,   162,   163,   164,    76,
+      -1,    -1,     9,    -1,    81,   121,    83,    -1,   174,   175,
+     176,   177,   178,    -1,    -1,   181,   182,    94,   184,   185,
+     186,   187,   188,   189,    -1,   191,   192,   193,   194,   195,
+     196,   197,     0,    48,    66,     3,   113,    -1,    45,    71,
+      -1,     9,   119,    -1,    -1,    -1,    78,    79,    55,    17,
+      82,    -1,    -1,   169,   170,    -1,    -1,   173,    26,    -1,
+      -1,    -1,    69,    95,    -1,    72,    -1,    99,   100,    76,
+      -1,    -1,    -1,    88,    81,    -1,    83,    45,   194,    -1,
+      -1,   197,    -1,    51,    -1,    -1,    54,    55,    -1,   104,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,   131,
+      -1,    69,    -1,    71,    72,    -1,   113,    -1,    76,    77,
+      78,    79,   119,    81,    82,    83,    -1,   194,    -1,   196,
+     197,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,   150,   151,   152,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+     185,    -1,    -1,    -1,    -1,   104,    -1,    -1,    -1,    -1,
+      -1,   104,    -1,   198,    -1,    -1,    -1,   194,   104,   196,
+      -1,    -1,   121,    -1,   162,   163,   164,    -1,   121,    -1,
+      -1,    -1,    -1,    -1,    -1,   121,   174,   175,   176,   177,
+     178,    -1,    -1,   181,   182,    -1,   184,   185,   186,   187,
+     188,   189,     0,   191,   192,     3,   194,    -1,   196,   197,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+     169,   170,    -1,    -1,   173,    -1,   169,   170,    26,    -1,
+     173,    -1,     0,   169,   170,    -1,    -1,   173,    -1,    -1,
+       0,     9,    -1,     3,   193,   194,    -1,    45,   197,    -1,
+     193,   194,    -1,    51,   197,    -1,    54,    55,   194,    -1,
+      -1,   197,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    45,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    55,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    55,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    72,    -1,    -1,    -1,    76,    -1,
+      -1,   109,    72,    81,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
+      -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,
+      -1,   119,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,
+      -1,    -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   174,   175,   176,   177,
+     178,    -1,    -1,   181,   182,    -1,   184,   185,   186,   187,
+     188,   189,    -1,   191,   192,   193,   194,     0,   196,   197,
+       3,    -1,   162,   163,   164,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,   194,    -1,   196,    -1,
+      -1,    -1,    -1,    -1,   194,    -1,   196,   197,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    45,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    55,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    72,    -1,    -1,    -1,
-      76,    -1,    -1,   109,    -1,    81,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,   113,    -1,    -1,
-      -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,
-     196,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,     0,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    45,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    55,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    72,
+      -1,    -1,    -1,    76,    -1,    -1,   109,    -1,    81,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+     113,    -1,    -1,    -1,    -1,    -1,   119,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   194,    -1,   196,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
-      -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
-      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
-      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
-      -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
-     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,     0,   191,   192,     3,   194,    -1,
-     196,   197,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   162,
+     163,   164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      -1,   184,   185,   186,   187,   188,   189,     0,   191,   192,
+       3,   194,    -1,   196,   197,    -1,     9,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
+      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
+      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
+      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
+     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
+      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
+      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,   162,
+     163,   164,    -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   174,   175,   176,   177,   178,    -1,    -1,   181,   182,
+      26,   184,   185,   186,   187,   188,   189,    -1,   191,   192,
+      -1,   194,    -1,   196,   197,    -1,    -1,    -1,    -1,    45,
       -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
@@ -2132,7 +2218,7 @@ static const yytype_int16 yycheck[] =
       -1,    -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
      116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
-      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+      -1,    -1,    -1,   129,    -1,   131,   132,    -1,    -1,    -1,
      136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,   162,   163,   164,    -1,
@@ -2154,319 +2240,293 @@ static const yytype_int16 yycheck[] =
       -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
      136,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,     0,    -1,    -1,     3,    -1,   162,   163,   164,    -1,
-       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    26,   184,   185,
+       0,    -1,    -1,     3,    -1,    -1,   162,   163,   164,     9,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,   174,   175,
+     176,    -1,    -1,    -1,    -1,    -1,    26,    -1,   184,   185,
      186,   187,   188,   189,    -1,   191,   192,    -1,   194,    -1,
-     196,   197,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
-      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
-      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
-      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
-      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
-     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,    -1,
-     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     196,   197,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   162,   163,   164,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   174,   175,   176,   177,   178,
-      -1,    -1,   181,   182,    -1,   184,   185,   186,   187,   188,
-     189,     0,   191,   192,     3,   194,    -1,   196,   197,    -1,
-       9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
-      -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
-      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
-      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
-      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
-     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
-     129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,
+      -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    17,   174,   175,   176,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,   184,   185,   186,   187,   188,   189,
+      -1,   191,   192,    -1,   194,    -1,   196,   197,    -1,    -1,
+      -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,
-       3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    17,   174,   175,   176,    -1,    -1,
-      -1,    -1,    -1,    26,    -1,   184,   185,   186,   187,   188,
-     189,    -1,   191,   192,    -1,   194,    -1,   196,   197,    -1,
-      -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,    -1,
-      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
-      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
-      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
-      -1,    94,    95,    -1,    -1,    -1,    99,   100,   101,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
-     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
-      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
-      -1,    -1,    -1,   136,   137,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,   163,
+     164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    17,
+     174,   175,   176,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+     184,   185,   186,   187,   188,   189,    -1,   191,   192,    -1,
+     194,    -1,   196,   197,    -1,    -1,    -1,    45,    -1,    -1,
+      -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,   137,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,   162,
-     163,   164,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      17,   174,   175,   176,    -1,    -1,    -1,    -1,    -1,    26,
-      -1,   184,   185,   186,   187,   188,   189,    -1,   191,   192,
-      -1,   194,    -1,   196,   197,    -1,    -1,    -1,    45,    -1,
-      -1,    -1,    -1,    -1,    51,    -1,    -1,    54,    55,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
-      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
-      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
-      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
-      -1,    -1,    99,   100,   101,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
-     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
-      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
-     137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
-      -1,    -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    17,   174,   175,   176,
-      -1,    -1,    -1,    -1,    -1,    26,    -1,   184,   185,   186,
-     187,   188,   189,    -1,   191,   192,    -1,   194,    -1,   196,
-     197,    -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,
-      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
-      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
-      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
-     101,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
-      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
-     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
-     131,   132,    -1,    -1,    -1,   136,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,   162,   163,   164,     9,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    17,   174,   175,   176,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,   184,   185,   186,   187,
+     188,   189,    -1,   191,   192,    -1,   194,    -1,   196,   197,
+      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,
+      -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,
+     162,   163,   164,    17,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    26,    -1,    -1,   177,   178,    -1,    -1,   181,
+     182,    -1,   184,   185,   186,   187,   188,   189,    -1,   191,
+     192,    45,   194,    -1,   196,   197,    -1,    51,    -1,    -1,
+      54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+      -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,
+      -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,
+      -1,    -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,
+      -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,   162,   163,
+     164,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      26,    -1,    -1,   177,   178,    -1,    -1,   181,   182,    -1,
+     184,   185,   186,   187,   188,   189,    -1,   191,   192,    45,
+     194,    -1,   196,   197,    -1,    51,    -1,    -1,    54,    55,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,
-      -1,   162,   163,   164,     9,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    17,   174,   175,   176,    -1,    -1,    -1,    -1,
-      -1,    26,    -1,   184,   185,   186,   187,   188,   189,    -1,
-     191,   192,    -1,   194,    -1,   196,   197,    -1,    -1,    -1,
-      45,    -1,    -1,    -1,    -1,    -1,    51,    -1,    -1,    54,
-      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
-      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
-      -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,
-      95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
-      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
-     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,
-      -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
-      -1,    -1,     9,    -1,    -1,    -1,    -1,   162,   163,   164,
-      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
-      -1,    -1,   177,   178,    -1,    -1,   181,   182,    -1,   184,
-     185,   186,   187,   188,   189,    -1,   191,   192,    45,   194,
-      -1,   196,   197,    -1,    51,    -1,    -1,    54,    55,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,
-      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
-      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
-      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
-      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,
-     117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,
-      -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,    -1,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,   125,
+      -1,    -1,   128,   129,    -1,   131,   132,    -1,    -1,    -1,
+     136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,   162,   163,   164,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
+     186,   187,   188,   189,    -1,   191,   192,    45,   194,    -1,
+     196,   197,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,
+      -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,
+      78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,
+      -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,
+     118,   119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,
+     128,   129,    -1,   131,   132,    -1,    -1,    -1,   136,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,     0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,
-       9,    -1,    -1,    -1,    -1,   162,   163,   164,    17,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,
-     177,   178,    -1,    -1,   181,   182,    -1,   184,   185,   186,
-     187,   188,   189,    -1,   191,   192,    45,   194,    -1,   196,
-     197,    -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,
-      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
-      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
-      -1,    90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     109,    -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,
-     119,    -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,
-     129,    -1,   131,   132,    -1,    -1,    -1,   136,    -1,    -1,
+       0,    -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,
+      -1,    -1,    -1,    -1,   162,   163,   164,    17,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   177,
+     178,    -1,    -1,   181,   182,    -1,   184,   185,   186,   187,
+     188,   189,    -1,   191,   192,    45,   194,    -1,   196,   197,
+      -1,    51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,
+      90,    -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,
+     100,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,
+      -1,    -1,   112,   113,    -1,    -1,   116,   117,   118,   119,
+      -1,   121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,
+      -1,   131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,
+      -1,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,
+      -1,    -1,   162,   163,   164,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,   177,   178,    -1,
+      -1,   181,   182,    -1,   184,   185,   186,   187,   188,   189,
+      -1,   191,   192,    45,   194,    -1,   196,   197,    -1,    51,
+      -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,
+      72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,
+      82,    83,    -1,    -1,    -1,    -1,    -1,     0,    90,    -1,
+      92,    -1,    94,    95,    -1,    -1,     9,    99,   100,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,
+     112,   113,    -1,    -1,   116,   117,   118,   119,    -1,   121,
+      -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,
+     132,    -1,    45,    -1,   136,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    55,    -1,    -1,    -1,     0,    -1,    -1,     3,
+      -1,    -1,    -1,    -1,    -1,     9,    69,    -1,    -1,    72,
+     162,   163,   164,    76,    -1,    -1,    -1,    -1,    81,    -1,
+      -1,    -1,    26,    -1,    -1,   177,   178,    -1,    -1,   181,
+     182,    -1,   184,   185,   186,   187,   188,   189,    -1,   191,
+     192,    45,   194,    -1,   196,   197,    -1,    51,    -1,    -1,
+     113,    55,    -1,   116,    -1,    -1,   119,    -1,    -1,    -1,
+      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,   132,
+      -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
+      -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,    -1,
+      94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,
+      -1,     0,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,
+       9,    -1,   116,   117,   118,   119,    -1,    -1,    -1,    -1,
+      -1,   125,    -1,    -1,    -1,    -1,    -1,   131,   132,     0,
+      -1,   194,     3,   196,    -1,    -1,    -1,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    26,    55,    -1,   162,   163,
+     164,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    72,    45,    -1,    -1,    76,    -1,    -1,
+      51,    -1,    81,    -1,    55,    -1,    -1,    -1,   192,    -1,
+     194,    -1,   196,   197,     0,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,     9,    -1,    76,    -1,    78,    79,    -1,
+      81,    82,    83,    -1,   113,    -1,    -1,   116,    -1,    90,
+     119,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
+      -1,    -1,    -1,   132,    -1,    -1,    -1,    -1,   109,    45,
+      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    55,
+      -1,    -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,
+     131,   132,    -1,    69,     0,    -1,    72,     3,    -1,    -1,
+      76,    -1,    -1,     9,    -1,    81,    -1,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    94,    -1,
+      26,   162,   163,   164,    -1,   194,    -1,   196,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,    -1,    45,
+      -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    55,
+      -1,   192,    58,   194,    -1,   196,   197,    63,    -1,    -1,
+      66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    91,    -1,    -1,    94,    95,
+      -1,    -1,    -1,    99,   100,    -1,    -1,    -1,   104,    -1,
+       0,    -1,    -1,     3,    -1,    -1,    -1,   113,    -1,     9,
+      -1,    -1,    -1,   119,    -1,   121,    -1,   123,   194,   125,
+     196,    -1,    -1,    -1,    -1,   131,    26,   133,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,
-      -1,    -1,     3,    -1,    -1,    -1,    -1,    -1,     9,    -1,
-      -1,    -1,    -1,   162,   163,   164,    17,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,   177,   178,
-      -1,    -1,   181,   182,    -1,   184,   185,   186,   187,   188,
-     189,    -1,   191,   192,    45,   194,    -1,   196,   197,    -1,
-      51,    -1,    -1,    54,    55,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
-      71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,    -1,
-      81,    82,    83,    -1,    -1,    -1,    -1,    -1,    -1,    90,
-      -1,    92,    -1,    94,    95,    -1,    -1,    -1,    99,   100,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,
-      -1,   112,   113,    -1,    -1,   116,   117,   118,   119,    -1,
-     121,    -1,    -1,    -1,   125,    -1,    -1,   128,   129,    -1,
-     131,   132,    -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    45,    -1,    -1,     9,    -1,
+      -1,    -1,    -1,    -1,    -1,    55,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   169,   170,    26,    66,   173,    -1,    69,
+      -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,    79,
+      -1,    81,    82,    83,    45,    -1,    -1,   193,   194,   195,
+     196,   197,    -1,    -1,    55,    95,    -1,    -1,    -1,    99,
+     100,    -1,    -1,    -1,    -1,    66,    -1,    -1,    69,    -1,
+      71,    72,    -1,   113,    -1,    76,    -1,    78,    79,   119,
+      81,    82,    83,    -1,    -1,   125,    -1,    -1,    -1,    -1,
+      -1,   131,    -1,    -1,    95,    -1,    -1,    -1,    99,   100,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,
-       3,    -1,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,
-      -1,   162,   163,   164,    17,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    26,    -1,    -1,   177,   178,    -1,    -1,
-     181,   182,    -1,   184,   185,   186,   187,   188,   189,    -1,
-     191,   192,    45,   194,    -1,   196,   197,    -1,    51,    -1,
-      -1,    54,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,
-      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
-      83,    -1,    -1,    -1,    -1,    -1,    -1,    90,    -1,    92,
-      -1,    94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   109,    -1,    -1,   112,
-     113,    -1,    -1,   116,   117,   118,   119,    -1,   121,    -1,
-      -1,    -1,   125,    -1,    -1,   128,   129,    -1,   131,   132,
-      -1,    -1,    -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,     3,    -1,
-      -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,   162,
-     163,   164,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    26,    -1,    -1,   177,   178,    -1,    -1,   181,   182,
-      -1,   184,   185,   186,   187,   188,   189,    -1,   191,   192,
-      45,   194,    -1,   196,   197,    -1,    51,    -1,    -1,    54,
-      55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,    -1,
-      -1,    76,    -1,    78,    79,    -1,    81,    82,    83,    -1,
-      -1,    -1,    -1,    -1,     0,    90,    -1,    92,    -1,    94,
-      95,    -1,    -1,     9,    99,   100,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   109,    -1,    -1,   112,   113,    -1,
-      -1,   116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,
-     125,    -1,    -1,   128,   129,    -1,   131,   132,    -1,    45,
-      -1,   136,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
-      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,    -1,    -1,
-      -1,    -1,     9,    69,    -1,    -1,    72,   162,   163,   164,
-      76,    -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    26,
-      -1,    -1,   177,   178,    -1,    -1,   181,   182,    94,   184,
-     185,   186,   187,   188,   189,    -1,   191,   192,    45,   194,
-      -1,   196,   197,    -1,    51,    -1,    -1,   113,    55,    -1,
-      -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    66,
-      -1,    -1,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
-      -1,    78,    79,    -1,    81,    82,    83,    -1,    -1,    -1,
-      -1,    -1,    -1,    90,    -1,    92,    -1,    94,    95,    -1,
-      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,     0,    -1,
-      -1,    -1,   109,    -1,    -1,   112,   113,     9,    -1,   116,
-     117,   118,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,
-      -1,    -1,    -1,    -1,   131,   132,     0,    -1,   194,     3,
-     196,    -1,    -1,    -1,    -1,     9,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    45,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    26,    55,    -1,   162,   163,   164,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,   116,     9,    -1,   119,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      72,    45,    -1,    -1,    76,    -1,    -1,    51,    -1,    81,
-      -1,    55,    -1,    -1,    -1,   192,    -1,   194,    -1,   196,
-     197,     0,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
-       9,    -1,    76,    -1,    78,    79,    -1,    81,    82,    83,
-      -1,   113,    -1,    -1,   116,    -1,    90,   119,    92,    -1,
-      94,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,    -1,
-     132,    -1,    -1,    -1,    -1,   109,    45,    -1,   112,   113,
-      -1,    -1,   116,   117,   118,   119,    55,    -1,    -1,    -1,
-      -1,   125,    -1,    -1,    -1,    -1,    -1,   131,   132,    -1,
-      69,     0,    -1,    72,     3,    -1,    -1,    76,    -1,    -1,
-       9,    -1,    81,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,   162,   163,
-     164,    -1,   194,    -1,   196,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   113,    -1,    45,    -1,    -1,    -1,
-     119,    -1,    -1,    -1,    -1,    -1,    55,    -1,   192,    58,
-     194,    -1,   196,   197,    63,    -1,    -1,    66,    -1,    -1,
-      69,    -1,    71,    72,    -1,    -1,    -1,    76,    -1,    78,
-      79,    -1,    81,    82,    83,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    91,    -1,    -1,    94,    95,    -1,    -1,    -1,
-      99,   100,    -1,    -1,    -1,   104,    -1,     0,    -1,    -1,
-      -1,    -1,    -1,    -1,   113,    -1,     9,    -1,    -1,    -1,
-     119,    -1,   121,    -1,   123,   194,   125,   196,    -1,    -1,
-      -1,    -1,   131,    26,   133,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,     0,    -1,    -1,    -1,
-      -1,    -1,    45,    -1,    -1,     9,    -1,    -1,    -1,    -1,
+     131,   132,     0,    26,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    45,    -1,   194,    -1,   196,   197,    26,    -1,
       -1,    -1,    55,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     169,   170,    26,    66,   173,    -1,    69,    -1,    71,    72,
-      -1,    -1,    -1,    76,    -1,    78,    79,    -1,    81,    82,
-      83,    45,    -1,    -1,   193,   194,   195,   196,   197,    -1,
-      -1,    55,    95,    -1,    -1,    -1,    99,   100,    -1,    -1,
-      -1,    -1,    66,    -1,    -1,    69,    -1,    71,    72,    -1,
-     113,    -1,    76,   116,    78,    79,   119,    81,    82,    83,
-      -1,    -1,    -1,     0,    -1,    -1,     3,    -1,   131,   132,
-      -1,    95,     9,    -1,    -1,    99,   100,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   113,
-      -1,    -1,    -1,    -1,    -1,   119,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   131,    45,    -1,
-      -1,    -1,    -1,    -1,    51,    -1,    -1,    -1,    55,    -1,
+      -1,    -1,    -1,    66,    -1,    -1,    69,    45,    71,    72,
+      -1,    -1,    -1,    76,    -1,    78,    79,    55,    81,    82,
+      83,    -1,    -1,   194,    -1,   196,   197,    -1,    66,    -1,
+      -1,    69,    95,    71,    72,    -1,    99,   100,    76,    -1,
+      78,    79,    -1,    81,     0,    83,    -1,    -1,    -1,    -1,
+     113,    -1,    -1,     9,    -1,    -1,   119,    95,    -1,    -1,
+      -1,    99,   100,    -1,    -1,    -1,    -1,    -1,   131,     0,
+      26,    -1,    -1,    -1,    -1,   113,    -1,    -1,     9,    -1,
+      -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    45,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    55,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      66,    -1,    -1,    69,    45,    71,    72,    -1,    -1,    -1,
+      76,    -1,    78,    79,    55,    81,    -1,    83,    -1,    -1,
+     193,   194,    -1,   196,   197,    -1,    -1,    -1,    69,    95,
+      -1,    72,    -1,    99,   100,    76,     3,     4,     5,     6,
+      81,    -1,    -1,    -1,    -1,    12,   194,   113,   196,   197,
+      -1,    -1,    -1,   119,    -1,    -1,    -1,     3,     4,     5,
+       6,     3,     4,     5,     6,    -1,    12,    -1,    -1,    -1,
+      12,    -1,   113,    -1,    -1,    -1,    -1,    -1,   119,    46,
+      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     3,
+       4,     5,     6,    -1,    -1,    -1,    -1,    -1,    12,    -1,
+      46,    47,    48,    -1,    46,    47,    48,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,
+      -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,   194,    -1,
+     196,   197,    46,    47,    48,    -1,    -1,   104,    -1,    85,
+      -1,    -1,    88,    85,    -1,    -1,    88,    -1,    -1,    -1,
+      -1,    -1,    -1,   194,   121,   196,    -1,   124,   104,    -1,
+      -1,    -1,   104,    -1,    -1,    -1,    -1,    -1,   135,    -1,
+      -1,    85,    -1,    -1,    88,   121,    -1,    -1,    -1,   121,
+      -1,    -1,    -1,   150,   151,   152,    -1,    -1,    -1,   135,
+     104,    -1,    -1,   135,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   150,   151,   152,   121,   150,   151,
+     152,    -1,    -1,    -1,     3,     4,     5,     6,   185,   186,
+      -1,   135,    -1,    -1,    -1,    -1,   193,    -1,    -1,    -1,
+      -1,   198,     3,     4,     5,     6,   150,   151,   152,   185,
+     186,    -1,    -1,   185,   186,    -1,    -1,   193,   194,    -1,
+      -1,   193,   198,    -1,    -1,    -1,   198,    46,    47,    48,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   194,    69,   196,   197,    72,    -1,    -1,    -1,    76,
-      -1,    -1,    -1,    -1,    81,    -1,    83,    -1,    -1,    -1,
-      -1,    -1,     0,    -1,    -1,    -1,    -1,    94,    -1,    -1,
-      -1,     9,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   193,
-     194,    -1,   196,   197,    -1,    -1,   113,    -1,    26,   116,
-      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,   125,    -1,
-      -1,    -1,    -1,    -1,    -1,   132,    -1,    45,    -1,    -1,
-      -1,    -1,    -1,     0,    -1,    -1,    -1,    55,    -1,    -1,
-      -1,    -1,     9,    -1,    -1,    -1,    -1,    -1,    66,    -1,
-      -1,    69,    -1,    71,    72,   162,   163,   164,    76,    26,
-      78,    79,    -1,    81,    -1,    83,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    95,    45,    -1,
-      -1,    99,   100,    -1,    -1,   192,    -1,   194,    55,   196,
-     197,    -1,    -1,    -1,    -1,   113,    -1,    -1,    -1,    66,
-      -1,   119,    69,    -1,    71,    72,    -1,    -1,    -1,    76,
-      -1,    78,    79,    -1,    81,    -1,    83,     3,     4,     5,
-       6,    -1,    -1,    -1,    -1,    -1,    12,    -1,    95,    -1,
-      -1,    -1,    99,   100,    -1,    -1,    -1,    -1,     3,     4,
-       5,     6,    -1,    -1,    -1,    -1,   113,    12,    -1,    -1,
-      -1,    -1,   119,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      46,    47,    48,    -1,    -1,    -1,     3,     4,     5,     6,
-      -1,    -1,    -1,    -1,    -1,    12,   194,    -1,   196,   197,
-      -1,    46,    47,    48,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,   185,   186,    -1,    -1,    46,    47,    48,    -1,   193,
+     194,    -1,    -1,    -1,   198,     3,     4,     5,     6,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    85,    -1,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       3,     4,     5,     6,    85,   104,    -1,    88,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   115,    -1,    46,    47,
+      48,    -1,   121,   104,    -1,    -1,    -1,    -1,    -1,    -1,
+      58,   112,    -1,    -1,    -1,    -1,   135,    -1,    -1,    -1,
+     121,    -1,    -1,    46,    47,    48,    -1,    -1,    -1,    -1,
+      -1,   150,   151,   152,   135,    -1,    -1,    85,    -1,    -1,
+      88,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   150,
+     151,   152,    -1,    -1,    -1,    -1,   104,    -1,    -1,    -1,
+      -1,    -1,    85,    -1,    -1,    88,   185,   186,    -1,    -1,
+      -1,    -1,    -1,   121,   193,     3,     4,     5,     6,   198,
+      -1,   104,    -1,    -1,   185,   186,    -1,   135,    -1,    -1,
+      -1,    -1,   193,    -1,    -1,    -1,    -1,   198,   121,    -1,
+      -1,    -1,   150,   151,   152,    -1,    -1,     3,     4,     5,
+       6,    -1,   135,    -1,    -1,    -1,    -1,    -1,    46,    47,
+      48,    -1,    -1,    -1,    -1,    -1,    -1,   150,   151,   152,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   185,   186,    -1,
+      -1,    -1,    -1,    -1,    -1,   193,     3,     4,     5,     6,
+     198,    47,    48,    -1,    -1,    -1,    -1,    85,    -1,    -1,
+      88,    -1,   185,   186,    -1,    -1,    -1,    -1,    -1,    -1,
+     193,    -1,    -1,    -1,    -1,   198,   104,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,
-      -1,    -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,    46,
-      47,    48,    -1,    -1,    -1,    -1,    -1,    -1,   104,    -1,
-      85,    -1,    -1,    88,    -1,    -1,    -1,   194,    -1,   196,
-     197,    -1,    -1,    -1,    -1,   121,    -1,    -1,   124,   104,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    85,   135,
-      -1,    88,     3,     4,     5,     6,   121,    -1,    -1,    -1,
-      -1,    12,    -1,    -1,   150,   151,   152,   104,    -1,    -1,
-     135,    -1,    -1,     3,     4,     5,     6,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   121,   150,   151,   152,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    46,    47,    48,   135,   185,
-     186,     3,     4,     5,     6,    -1,    -1,   193,    -1,    -1,
-      -1,    -1,   198,   150,   151,   152,    46,    47,    48,    -1,
-     185,   186,     3,     4,     5,     6,    -1,    -1,   193,   194,
-      -1,    -1,    -1,   198,    85,    -1,    -1,    88,    -1,    -1,
-      -1,    -1,    -1,    -1,    46,    47,    48,    -1,   185,   186,
-      -1,    -1,    -1,   104,    -1,    85,   193,   194,    88,    -1,
-      -1,   198,    -1,    -1,    -1,    46,    47,    48,    -1,    -1,
-     121,    -1,    -1,    -1,   104,    -1,    -1,    58,    -1,    -1,
-      -1,    -1,    -1,    85,   135,   115,    88,    -1,    -1,    -1,
-      -1,   121,    -1,     3,     4,     5,     6,    -1,    -1,   150,
-     151,   152,   104,    -1,    85,   135,    -1,    88,    -1,    -1,
-     112,    -1,    -1,    -1,    -1,     3,     4,     5,     6,   121,
-     150,   151,   152,   104,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   135,   185,   186,    46,    47,    48,    -1,
-     121,    -1,   193,    -1,    -1,    -1,    -1,   198,   150,   151,
-     152,    -1,    -1,    -1,   135,   185,   186,    -1,    46,    47,
-      48,    -1,    -1,   193,     3,     4,     5,     6,   198,   150,
-     151,   152,    -1,    -1,    -1,    85,    -1,    -1,    88,    -1,
-      -1,    -1,    -1,   185,   186,    -1,    -1,    -1,    -1,    -1,
-      -1,   193,    -1,    -1,   104,    -1,   198,    85,    -1,    -1,
-      88,    -1,    -1,    -1,   185,   186,    -1,    -1,    47,    48,
-      -1,   121,   193,    -1,    -1,    -1,   104,   198,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   135,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   121,    -1,    -1,    -1,    -1,    -1,    -1,
-     150,   151,   152,    -1,    -1,    -1,    85,   135,    -1,    88,
+      47,    48,    88,   121,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,   135,   104,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   150,   151,   152,   104,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   185,   186,     0,    -1,    -1,
-      -1,    -1,   121,   193,     7,    -1,    -1,    -1,   198,    -1,
-      -1,    -1,    15,    -1,    -1,    -1,   135,   185,   186,    22,
-      -1,    -1,    -1,    -1,    27,   193,    -1,     7,    -1,    -1,
-     198,   150,   151,   152,    37,    15,    -1,    40,    41,    -1,
-      -1,    -1,    22,    -1,    -1,    -1,    -1,    27,    -1,    52,
-      53,    -1,    -1,    -1,    -1,    58,    -1,    37,    -1,    62,
-      40,    41,    65,    -1,    -1,    -1,   185,   186,    -1,    -1,
-      -1,    -1,    52,    53,   193,    -1,    -1,    -1,    58,   198,
-      -1,    -1,    62,    -1,    87,    65,    -1,    -1,    91,    -1,
-      -1,    -1,    -1,    -1,    11,    -1,    -1,    -1,    54,    -1,
-      -1,    -1,    -1,    -1,   107,    -1,    -1,    87,    25,    -1,
-     113,    91,    29,    30,    31,    32,    33,    -1,    35,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    43,   107,    -1,    -1,
-      -1,    -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   101,    -1,    -1,    -1,    -1,
-      -1,    68,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,
-     116,    -1,    -1,    -1,    -1,   121,    -1,    -1,    -1,    86,
-      -1,    88,    89,   129,    -1,   155,   156,   157,    -1,    -1,
-     136,   137,    -1,    -1,    -1,    -1,   103,    -1,    -1,    -1,
-     193,   108,    -1,   110,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   193,    -1,    -1,    -1,    -1,   174,   175,
-     176,   177,   178,    -1,    -1,   181,   182,    -1,   184,   185,
-     186,   187,   188,   189,    -1,   191,   153
+      -1,    -1,   150,   151,   152,   121,    -1,    -1,    85,    -1,
+      -1,    88,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   135,
+      -1,    -1,    -1,    -1,    -1,    -1,     0,   104,    -1,    -1,
+      -1,    -1,    -1,     7,   150,   151,   152,   185,   186,    -1,
+      -1,    15,    -1,    -1,   121,   193,    -1,    -1,    22,    -1,
+     198,    -1,    -1,    27,    -1,    -1,     7,    -1,   135,    -1,
+      -1,    -1,    -1,    37,    15,    -1,    40,    41,    -1,   185,
+     186,    22,    -1,   150,   151,   152,    27,   193,    52,    53,
+      -1,    -1,   198,    -1,    58,    -1,    37,    -1,    62,    40,
+      41,    65,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    52,    53,    -1,    -1,    -1,    -1,    58,   185,   186,
+      -1,    62,    -1,    87,    65,    -1,   193,    91,    -1,    -1,
+      -1,   198,    -1,    11,    -1,    -1,    -1,    54,    -1,    -1,
+      -1,    -1,    -1,   107,    -1,    -1,    87,    25,    -1,   113,
+      91,    29,    30,    31,    32,    33,    -1,    35,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    43,   107,    -1,    -1,    -1,
+      -1,    -1,   113,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   101,    -1,    -1,    -1,    -1,    -1,
+      68,   155,   156,   157,    -1,    -1,    -1,    -1,    -1,   116,
+      -1,    -1,    -1,    -1,   121,    -1,    -1,    -1,    86,    -1,
+      88,    89,   129,    -1,   155,   156,   157,    -1,    -1,   136,
+     137,    -1,    -1,    -1,    -1,   103,    -1,    -1,    -1,   193,
+     108,    -1,   110,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   193,    -1,    -1,    -1,    -1,   174,   175,   176,
+     177,   178,    -1,    -1,   181,   182,    -1,   184,   185,   186,
+     187,   188,   189,    -1,   191,   153
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
@@ -2476,69 +2536,70 @@ static const yytype_int16 yystos[] =
        0,     7,    15,    22,    27,    37,    40,    41,    52,    53,
       62,    65,    87,    91,   107,   113,   155,   156,   157,   200,
      201,   202,   203,   207,   209,   211,   212,   218,   219,   220,
-     233,   235,   238,   239,   240,   242,   245,   326,   327,    27,
-       3,   315,     3,     3,   315,    70,    80,   111,    94,    94,
-      98,   314,   315,    80,   193,   248,   315,    70,    80,   111,
-      19,    60,     3,   328,   329,   154,   208,   208,   208,     0,
-     196,   333,   113,   204,   204,    58,   248,   249,   253,     3,
-     195,   193,    94,   127,   221,   221,   221,   315,     3,   213,
-     315,   123,   127,   234,   248,   249,   133,    94,   133,   234,
-     234,   234,   315,   125,   197,   202,    97,   124,   266,     9,
+     233,   235,   238,   239,   240,   242,   245,   327,   328,    27,
+       3,   316,     3,     3,   316,    70,    80,   111,    94,    94,
+      98,   315,   316,    80,   193,   248,   316,    70,    80,   111,
+      19,    60,     3,   329,   330,   154,   208,   208,   208,     0,
+     196,   334,   113,   204,   204,    58,   248,   249,   253,     3,
+     195,   193,    94,   127,   221,   221,   221,   316,     3,   213,
+     316,   123,   127,   234,   248,   249,   133,    94,   133,   234,
+     234,   234,   316,   125,   197,   202,    97,   124,   266,     9,
       45,    81,   250,   251,    76,   250,   261,     3,     4,     5,
        6,    48,    88,   104,   150,   151,   152,   185,   198,   269,
-     270,   271,   272,   300,   301,   302,   303,   304,   305,   306,
-     307,   308,     4,   210,   121,     3,   316,   315,   315,    83,
-     258,    93,   193,   241,     3,   243,   244,    46,   315,   194,
-     194,     4,   214,   214,   214,     3,   315,   315,   248,   329,
-     193,     6,   304,    12,   254,   246,   247,   248,   253,   115,
+     270,   271,   272,   301,   302,   303,   304,   305,   306,   307,
+     308,   309,     4,   210,   121,     3,   317,   316,   316,    83,
+     258,    93,   193,   241,     3,   243,   244,    46,   316,   194,
+     194,     4,   214,   214,   214,     3,   316,   316,   248,   330,
+     193,     6,   305,    12,   254,   246,   247,   248,   253,   115,
      252,   126,   246,    55,    72,   267,   138,   139,   140,   141,
-     142,   143,   144,   145,   146,   147,   148,   149,   293,   294,
-     295,   193,     4,     4,   303,   307,   194,   197,    46,   131,
+     142,   143,   144,   145,   146,   147,   148,   149,   294,   295,
+     296,   193,     4,     4,   304,   308,   194,   197,    46,   131,
       94,   125,   193,   241,     3,    46,    47,    48,    85,   121,
      135,   185,   186,   193,   274,   275,   276,   277,   278,   279,
-     280,   281,   283,   284,   285,   291,   292,   296,   297,   298,
-     299,   300,   214,     3,   334,    63,   249,   174,   197,   258,
-      91,   236,   237,   113,   193,   215,   215,   215,     3,   205,
-     206,   255,   268,   273,   274,   261,   250,   262,   263,   274,
-     261,   274,   115,   274,   119,   321,   322,   323,   272,   293,
-     271,   315,     3,   245,     3,   169,   170,   171,   222,   223,
-     224,   231,   125,   193,   195,   193,   193,   193,   112,   274,
-     282,    46,   121,   275,   191,   275,   249,   274,   116,   132,
-      17,    54,   101,   121,   128,   129,   136,   137,   174,   175,
-     176,   177,   178,   181,   182,   184,   185,   186,   187,   188,
-     189,   191,    98,   194,   197,   193,   274,   244,    39,   193,
-       3,    24,    49,   104,   216,   217,   258,   193,   194,   197,
-      94,   256,   257,   197,     3,   125,   319,   320,   267,   246,
-     197,    90,   117,   264,   267,    55,    55,    62,   134,   161,
-     172,   324,   323,   125,   193,    93,    11,    25,    29,    30,
-      31,    32,    33,    35,    43,    68,    86,    88,    89,   103,
-     108,   110,   120,   153,   225,   193,   172,   172,   194,   197,
-     245,   194,   254,     3,   186,   249,   293,   274,   274,   282,
-      92,   112,   118,   193,   121,   268,   194,   194,   274,   274,
-     275,   275,   101,   128,   193,   104,   121,   275,   275,   275,
-     275,   275,   275,   275,   275,   275,   275,   275,   275,   275,
-     275,   275,   304,   315,     3,   270,   234,   216,     4,     4,
-     213,     4,   194,   197,   270,   206,   193,   309,   310,   311,
-     312,   313,   315,   330,   258,   273,     3,   263,     3,   265,
-     321,   274,   274,   172,   161,   130,   158,   159,   325,   225,
-     334,   214,   193,   193,   227,   193,   193,   193,   226,   104,
-     121,   169,   170,   173,   228,   229,   230,   232,   334,   193,
-     193,   223,    77,   286,   268,   193,   194,    94,   125,   109,
-      92,   118,   274,   274,   249,   192,   116,   275,   193,   249,
-     268,   104,   192,   194,     3,   194,    24,    49,   217,   194,
-     245,    26,    66,    71,    78,    79,    95,   100,   331,   197,
-     125,   317,   318,   319,    69,   259,     3,    62,   334,   160,
-     194,   194,     6,     6,     6,     6,     6,   104,   172,   315,
-     230,   232,   194,   334,   334,   193,   194,   194,   254,   274,
-     225,   274,   274,   118,   109,   194,   275,   249,   268,   194,
-     194,     4,   213,   194,    99,    78,    78,    78,    99,   310,
-       3,   126,   325,   194,   194,   197,   194,   194,   194,   241,
-     194,   194,   105,   287,   286,   286,   268,   194,   194,   118,
-     274,   194,   194,   318,   311,   310,   193,   268,     6,   232,
-     126,   261,   194,    82,   131,   334,    51,   260,   194,   268,
-     162,   163,   164,   288,   289,   286,   193,   274,   332,   194,
-     274,   194,     6,    17,   165,   168,   290,   334,   166,   167,
-     290,   166,   167,   194,   116,   290
+     280,   281,   282,   284,   285,   286,   292,   293,   297,   298,
+     299,   300,   301,   214,     3,   335,    63,   249,   174,   197,
+     258,    91,   236,   237,   113,   193,   215,   215,   215,     3,
+     205,   206,   255,   268,   273,   274,   261,   250,   262,   263,
+     274,   261,   274,   115,   274,   119,   322,   323,   324,   272,
+     294,   271,   316,     3,   245,     3,   169,   170,   171,   222,
+     223,   224,   231,   125,   193,   195,   193,   193,   193,   112,
+     274,   283,    46,   121,   275,   280,   281,   299,   191,   121,
+     275,   249,   274,   116,   132,    17,    54,   101,   121,   128,
+     129,   136,   137,   174,   175,   176,   177,   178,   181,   182,
+     184,   185,   186,   187,   188,   189,   191,    98,   194,   197,
+     193,   274,   244,    39,   193,     3,    24,    49,   104,   216,
+     217,   258,   193,   194,   197,    94,   256,   257,   197,     3,
+     125,   320,   321,   267,   246,   197,    90,   117,   264,   267,
+      55,    55,    62,   134,   161,   172,   325,   324,   125,   193,
+      93,    11,    25,    29,    30,    31,    32,    33,    35,    43,
+      68,    86,    88,    89,   103,   108,   110,   120,   153,   225,
+     193,   172,   172,   194,   197,   245,   194,   254,     3,   186,
+     249,   294,   274,   274,   283,    92,   112,   118,   193,   268,
+     275,   121,   194,   194,   274,   274,   275,   275,   101,   128,
+     193,   104,   121,   275,   275,   275,   275,   275,   275,   275,
+     275,   275,   275,   275,   275,   275,   275,   275,   305,   316,
+       3,   270,   234,   216,     4,     4,   213,     4,   194,   197,
+     270,   206,   193,   310,   311,   312,   313,   314,   316,   331,
+     258,   273,     3,   263,     3,   265,   322,   274,   274,   172,
+     161,   130,   158,   159,   326,   225,   335,   214,   193,   193,
+     227,   193,   193,   193,   226,   104,   121,   169,   170,   173,
+     228,   229,   230,   232,   335,   193,   193,   223,    77,   287,
+     268,   193,   194,    94,   125,   109,    92,   118,   274,   274,
+     249,   192,   116,   275,   193,   249,   268,   104,   192,   194,
+       3,   194,    24,    49,   217,   194,   245,    26,    66,    71,
+      78,    79,    95,   100,   332,   197,   125,   318,   319,   320,
+      69,   259,     3,    62,   335,   160,   194,   194,     6,     6,
+       6,     6,     6,   104,   172,   316,   230,   232,   194,   335,
+     335,   193,   194,   194,   254,   274,   225,   274,   274,   118,
+     109,   194,   275,   249,   268,   194,   194,     4,   213,   194,
+      99,    78,    78,    78,    99,   311,     3,   126,   326,   194,
+     194,   197,   194,   194,   194,   241,   194,   194,   105,   288,
+     287,   287,   268,   194,   194,   118,   274,   194,   194,   319,
+     312,   311,   193,   268,     6,   232,   126,   261,   194,    82,
+     131,   335,    51,   260,   194,   268,   162,   163,   164,   289,
+     290,   287,   193,   274,   333,   194,   274,   194,     6,    17,
+     165,   168,   291,   335,   166,   167,   291,   166,   167,   194,
+     116,   291
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
@@ -2562,24 +2623,25 @@ static const yytype_int16 yyr1[] =
      259,   260,   260,   261,   261,   262,   262,   263,   264,   264,
      264,   265,   265,   266,   266,   267,   267,   267,   267,   267,
      267,   268,   268,   269,   269,   270,   270,   271,   271,   272,
-     272,   272,   273,   274,   274,   274,   274,   274,   275,   275,
-     275,   275,   275,   275,   275,   275,   275,   275,   275,   276,
-     276,   277,   277,   277,   277,   277,   278,   278,   278,   278,
-     278,   278,   278,   278,   278,   278,   278,   279,   279,   280,
-     280,   280,   280,   281,   281,   281,   281,   282,   282,   283,
-     283,   284,   284,   284,   284,   284,   284,   284,   285,   285,
-     285,   285,   286,   286,   287,   287,   288,   288,   288,   289,
-     289,   289,   290,   290,   290,   290,   290,   291,   292,   293,
-     293,   293,   293,   293,   293,   294,   294,   294,   294,   294,
-     294,   295,   295,   296,   297,   298,   299,   299,   299,   299,
-     300,   300,   300,   300,   300,   300,   300,   301,   302,   302,
-     303,   303,   304,   305,   306,   307,   307,   307,   308,   309,
-     309,   310,   310,   311,   311,   312,   312,   313,   314,   315,
-     315,   316,   316,   317,   317,   318,   318,   319,   319,   320,
-     320,   321,   321,   322,   322,   323,   323,   324,   324,   324,
-     324,   325,   325,   325,   326,   326,   327,   328,   328,   329,
-     330,   330,   330,   331,   331,   331,   331,   331,   331,   331,
-     331,   331,   331,   332,   333,   333,   334,   334
+     272,   272,   273,   274,   274,   274,   274,   274,   274,   275,
+     275,   275,   275,   275,   275,   275,   275,   275,   275,   275,
+     276,   276,   277,   277,   277,   277,   277,   278,   278,   278,
+     278,   278,   278,   278,   278,   278,   278,   278,   279,   279,
+     280,   280,   280,   280,   281,   281,   281,   282,   282,   282,
+     282,   283,   283,   284,   284,   285,   285,   285,   285,   285,
+     285,   285,   286,   286,   286,   286,   287,   287,   288,   288,
+     289,   289,   289,   290,   290,   290,   291,   291,   291,   291,
+     291,   292,   293,   294,   294,   294,   294,   294,   294,   295,
+     295,   295,   295,   295,   295,   296,   296,   297,   298,   299,
+     300,   300,   300,   300,   301,   301,   301,   301,   301,   301,
+     301,   302,   303,   303,   304,   304,   305,   306,   307,   308,
+     308,   308,   309,   310,   310,   311,   311,   312,   312,   313,
+     313,   314,   315,   316,   316,   317,   317,   318,   318,   319,
+     319,   320,   320,   321,   321,   322,   322,   323,   323,   324,
+     324,   325,   325,   325,   325,   326,   326,   326,   327,   327,
+     328,   329,   329,   330,   331,   331,   331,   332,   332,   332,
+     332,   332,   332,   332,   332,   332,   332,   333,   334,   334,
+     335,   335
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
@@ -2603,24 +2665,25 @@ static const yytype_int8 yyr2[] =
        0,     2,     0,     3,     0,     1,     3,     3,     1,     1,
        0,     0,     2,     2,     0,     2,     2,     4,     2,     4,
        0,     1,     3,     1,     0,     1,     3,     1,     6,     1,
-       2,     2,     2,     1,     1,     1,     1,     1,     3,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     3,     1,
-       1,     2,     2,     2,     3,     4,     1,     3,     3,     3,
-       3,     3,     3,     3,     4,     3,     3,     3,     3,     5,
-       6,     5,     6,     4,     6,     3,     5,     4,     5,     4,
-       5,     3,     3,     3,     3,     3,     3,     3,     4,     6,
-       6,     8,     6,     0,     3,     0,     2,     5,     0,     1,
-       1,     1,     2,     2,     2,     2,     1,     6,     6,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     4,     4,     5,     1,     3,     1,     3,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     2,     2,     3,     2,     1,     1,
-       3,     1,     1,     1,     4,     1,     3,     2,     1,     1,
-       3,     1,     0,     1,     5,     1,     0,     2,     1,     1,
-       0,     1,     0,     1,     2,     3,     5,     1,     3,     1,
-       2,     2,     1,     0,     1,     0,     2,     1,     3,     3,
-       4,     6,     8,     1,     2,     1,     2,     1,     2,     1,
-       1,     1,     0,     1,     1,     0,     1,     3
+       2,     2,     2,     1,     1,     1,     1,     1,     1,     3,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     3,
+       1,     1,     2,     2,     2,     3,     4,     1,     3,     3,
+       3,     3,     3,     3,     3,     4,     3,     3,     3,     3,
+       5,     6,     5,     6,     2,     2,     2,     4,     6,     3,
+       5,     4,     5,     4,     5,     3,     3,     3,     3,     3,
+       3,     3,     4,     6,     6,     8,     6,     0,     3,     0,
+       2,     5,     0,     1,     1,     1,     2,     2,     2,     2,
+       1,     6,     6,     1,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     4,     4,     5,
+       1,     3,     1,     3,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     2,
+       3,     2,     1,     1,     3,     1,     1,     1,     4,     1,
+       3,     2,     1,     1,     3,     1,     0,     1,     5,     1,
+       0,     2,     1,     1,     0,     1,     0,     1,     2,     3,
+       5,     1,     3,     1,     2,     2,     1,     0,     1,     0,
+       2,     1,     3,     3,     4,     6,     8,     1,     2,     1,
+       2,     1,     2,     1,     1,     1,     0,     1,     1,     0,
+       1,     3
 };
 
 
@@ -3186,25 +3249,25 @@ yydestruct (const char *yymsg,
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
 #line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3190 "bison_parser.cpp"
+#line 3253 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
 #line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3196 "bison_parser.cpp"
+#line 3259 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
 #line 184 "bison_parser.y"
             { }
-#line 3202 "bison_parser.cpp"
+#line 3265 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
 #line 184 "bison_parser.y"
             { }
-#line 3208 "bison_parser.cpp"
+#line 3271 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
@@ -3217,19 +3280,19 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 3221 "bison_parser.cpp"
+#line 3284 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 3227 "bison_parser.cpp"
+#line 3290 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 3233 "bison_parser.cpp"
+#line 3296 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
@@ -3242,7 +3305,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3246 "bison_parser.cpp"
+#line 3309 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
@@ -3255,67 +3318,67 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3259 "bison_parser.cpp"
+#line 3322 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3265 "bison_parser.cpp"
+#line 3328 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 3271 "bison_parser.cpp"
+#line 3334 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 3277 "bison_parser.cpp"
+#line 3340 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
 #line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3283 "bison_parser.cpp"
+#line 3346 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 3289 "bison_parser.cpp"
+#line 3352 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 3295 "bison_parser.cpp"
+#line 3358 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
 #line 184 "bison_parser.y"
             { }
-#line 3301 "bison_parser.cpp"
+#line 3364 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
 #line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3307 "bison_parser.cpp"
+#line 3370 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 3313 "bison_parser.cpp"
+#line 3376 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 3319 "bison_parser.cpp"
+#line 3382 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
@@ -3324,31 +3387,31 @@ yydestruct (const char *yymsg,
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 3328 "bison_parser.cpp"
+#line 3391 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 3334 "bison_parser.cpp"
+#line 3397 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 3340 "bison_parser.cpp"
+#line 3403 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 3346 "bison_parser.cpp"
+#line 3409 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
 #line 184 "bison_parser.y"
             { }
-#line 3352 "bison_parser.cpp"
+#line 3415 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
@@ -3361,37 +3424,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 3365 "bison_parser.cpp"
+#line 3428 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 3371 "bison_parser.cpp"
+#line 3434 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 3377 "bison_parser.cpp"
+#line 3440 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
 #line 184 "bison_parser.y"
             { }
-#line 3383 "bison_parser.cpp"
+#line 3446 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
 #line 184 "bison_parser.y"
             { }
-#line 3389 "bison_parser.cpp"
+#line 3452 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 3395 "bison_parser.cpp"
+#line 3458 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
@@ -3404,7 +3467,7 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 3408 "bison_parser.cpp"
+#line 3471 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
@@ -3417,73 +3480,73 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 3421 "bison_parser.cpp"
+#line 3484 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
 #line 184 "bison_parser.y"
             { }
-#line 3427 "bison_parser.cpp"
+#line 3490 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 3433 "bison_parser.cpp"
+#line 3496 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 3439 "bison_parser.cpp"
+#line 3502 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 3445 "bison_parser.cpp"
+#line 3508 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
 #line 184 "bison_parser.y"
             { }
-#line 3451 "bison_parser.cpp"
+#line 3514 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 3457 "bison_parser.cpp"
+#line 3520 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 3463 "bison_parser.cpp"
+#line 3526 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 3469 "bison_parser.cpp"
+#line 3532 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 3475 "bison_parser.cpp"
+#line 3538 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 3481 "bison_parser.cpp"
+#line 3544 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 3487 "bison_parser.cpp"
+#line 3550 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
@@ -3496,13 +3559,13 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3500 "bison_parser.cpp"
+#line 3563 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 3506 "bison_parser.cpp"
+#line 3569 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
@@ -3515,7 +3578,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 3519 "bison_parser.cpp"
+#line 3582 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
@@ -3525,67 +3588,67 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).update_t)->value;
   delete (((*yyvaluep).update_t));
 }
-#line 3529 "bison_parser.cpp"
+#line 3592 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3535 "bison_parser.cpp"
+#line 3598 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3541 "bison_parser.cpp"
+#line 3604 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3547 "bison_parser.cpp"
+#line 3610 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3553 "bison_parser.cpp"
+#line 3616 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3559 "bison_parser.cpp"
+#line 3622 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 3565 "bison_parser.cpp"
+#line 3628 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 3571 "bison_parser.cpp"
+#line 3634 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
 #line 184 "bison_parser.y"
             { }
-#line 3577 "bison_parser.cpp"
+#line 3640 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3583 "bison_parser.cpp"
+#line 3646 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
 #line 184 "bison_parser.y"
             { }
-#line 3589 "bison_parser.cpp"
+#line 3652 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
@@ -3598,37 +3661,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3602 "bison_parser.cpp"
+#line 3665 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3608 "bison_parser.cpp"
+#line 3671 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3614 "bison_parser.cpp"
+#line 3677 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3620 "bison_parser.cpp"
+#line 3683 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 3626 "bison_parser.cpp"
+#line 3689 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3632 "bison_parser.cpp"
+#line 3695 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
@@ -3641,7 +3704,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 3645 "bison_parser.cpp"
+#line 3708 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
@@ -3654,37 +3717,37 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 3658 "bison_parser.cpp"
+#line 3721 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 3664 "bison_parser.cpp"
+#line 3727 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
 #line 184 "bison_parser.y"
             { }
-#line 3670 "bison_parser.cpp"
+#line 3733 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
 #line 184 "bison_parser.y"
             { }
-#line 3676 "bison_parser.cpp"
+#line 3739 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 3682 "bison_parser.cpp"
+#line 3745 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 3688 "bison_parser.cpp"
+#line 3751 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
@@ -3697,7 +3760,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3701 "bison_parser.cpp"
+#line 3764 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
@@ -3710,7 +3773,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3714 "bison_parser.cpp"
+#line 3777 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
@@ -3723,103 +3786,109 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3727 "bison_parser.cpp"
+#line 3790 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3733 "bison_parser.cpp"
+#line 3796 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3739 "bison_parser.cpp"
+#line 3802 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3745 "bison_parser.cpp"
+#line 3808 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3751 "bison_parser.cpp"
+#line 3814 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3757 "bison_parser.cpp"
+#line 3820 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3763 "bison_parser.cpp"
+#line 3826 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3769 "bison_parser.cpp"
+#line 3832 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3775 "bison_parser.cpp"
+#line 3838 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3781 "bison_parser.cpp"
+#line 3844 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3787 "bison_parser.cpp"
+#line 3850 "bison_parser.cpp"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 254 "bison_parser.y"
+            { delete (((*yyvaluep).expr)); }
+#line 3856 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3793 "bison_parser.cpp"
+#line 3862 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3799 "bison_parser.cpp"
+#line 3868 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3805 "bison_parser.cpp"
+#line 3874 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3811 "bison_parser.cpp"
+#line 3880 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3817 "bison_parser.cpp"
+#line 3886 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 3823 "bison_parser.cpp"
+#line 3892 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
@@ -3832,151 +3901,151 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3836 "bison_parser.cpp"
+#line 3905 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 3842 "bison_parser.cpp"
+#line 3911 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
 #line 184 "bison_parser.y"
             { }
-#line 3848 "bison_parser.cpp"
+#line 3917 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 3854 "bison_parser.cpp"
+#line 3923 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3860 "bison_parser.cpp"
+#line 3929 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3866 "bison_parser.cpp"
+#line 3935 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
 #line 184 "bison_parser.y"
             { }
-#line 3872 "bison_parser.cpp"
+#line 3941 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
 #line 184 "bison_parser.y"
             { }
-#line 3878 "bison_parser.cpp"
+#line 3947 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
 #line 184 "bison_parser.y"
             { }
-#line 3884 "bison_parser.cpp"
+#line 3953 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3890 "bison_parser.cpp"
+#line 3959 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3896 "bison_parser.cpp"
+#line 3965 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3902 "bison_parser.cpp"
+#line 3971 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3908 "bison_parser.cpp"
+#line 3977 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3914 "bison_parser.cpp"
+#line 3983 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3920 "bison_parser.cpp"
+#line 3989 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3926 "bison_parser.cpp"
+#line 3995 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3932 "bison_parser.cpp"
+#line 4001 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3938 "bison_parser.cpp"
+#line 4007 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3944 "bison_parser.cpp"
+#line 4013 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3950 "bison_parser.cpp"
+#line 4019 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3956 "bison_parser.cpp"
+#line 4025 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3962 "bison_parser.cpp"
+#line 4031 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3968 "bison_parser.cpp"
+#line 4037 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3974 "bison_parser.cpp"
+#line 4043 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3980 "bison_parser.cpp"
+#line 4049 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
@@ -3989,19 +4058,19 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 3993 "bison_parser.cpp"
+#line 4062 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3999 "bison_parser.cpp"
+#line 4068 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4005 "bison_parser.cpp"
+#line 4074 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
@@ -4010,37 +4079,37 @@ yydestruct (const char *yymsg,
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 4014 "bison_parser.cpp"
+#line 4083 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
 #line 197 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 4020 "bison_parser.cpp"
+#line 4089 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4026 "bison_parser.cpp"
+#line 4095 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4032 "bison_parser.cpp"
+#line 4101 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4038 "bison_parser.cpp"
+#line 4107 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4044 "bison_parser.cpp"
+#line 4113 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
@@ -4059,7 +4128,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 4063 "bison_parser.cpp"
+#line 4132 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
@@ -4078,7 +4147,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 4082 "bison_parser.cpp"
+#line 4151 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
@@ -4092,19 +4161,19 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_t));
 }
-#line 4096 "bison_parser.cpp"
+#line 4165 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
 #line 184 "bison_parser.y"
             { }
-#line 4102 "bison_parser.cpp"
+#line 4171 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
 #line 184 "bison_parser.y"
             { }
-#line 4108 "bison_parser.cpp"
+#line 4177 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
@@ -4117,7 +4186,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4121 "bison_parser.cpp"
+#line 4190 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
@@ -4130,7 +4199,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4134 "bison_parser.cpp"
+#line 4203 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
@@ -4143,31 +4212,31 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4147 "bison_parser.cpp"
+#line 4216 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 4153 "bison_parser.cpp"
+#line 4222 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4159 "bison_parser.cpp"
+#line 4228 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
 #line 184 "bison_parser.y"
             { }
-#line 4165 "bison_parser.cpp"
+#line 4234 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
 #line 254 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4171 "bison_parser.cpp"
+#line 4240 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
@@ -4180,7 +4249,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 4184 "bison_parser.cpp"
+#line 4253 "bison_parser.cpp"
         break;
 
       default:
@@ -4288,7 +4357,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.param_list = std::make_shared<std::vector<void*>>();
 }
 
-#line 4292 "bison_parser.cpp"
+#line 4361 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -4519,7 +4588,7 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 4523 "bison_parser.cpp"
+#line 4592 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
@@ -4529,7 +4598,7 @@ yyreduce:
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 4533 "bison_parser.cpp"
+#line 4602 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
@@ -4540,7 +4609,7 @@ yyreduce:
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 4544 "bison_parser.cpp"
+#line 4613 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
@@ -4549,7 +4618,7 @@ yyreduce:
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4553 "bison_parser.cpp"
+#line 4622 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
@@ -4558,97 +4627,97 @@ yyreduce:
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4562 "bison_parser.cpp"
+#line 4631 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
 #line 432 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 4568 "bison_parser.cpp"
+#line 4637 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
 #line 433 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 4574 "bison_parser.cpp"
+#line 4643 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
 #line 434 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 4580 "bison_parser.cpp"
+#line 4649 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
 #line 436 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 4586 "bison_parser.cpp"
+#line 4655 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
 #line 437 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 4592 "bison_parser.cpp"
+#line 4661 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
 #line 438 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 4598 "bison_parser.cpp"
+#line 4667 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
 #line 439 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4604 "bison_parser.cpp"
+#line 4673 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
 #line 440 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4610 "bison_parser.cpp"
+#line 4679 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
 #line 441 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 4616 "bison_parser.cpp"
+#line 4685 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
 #line 442 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 4622 "bison_parser.cpp"
+#line 4691 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
 #line 443 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 4628 "bison_parser.cpp"
+#line 4697 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
 #line 444 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 4634 "bison_parser.cpp"
+#line 4703 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
 #line 445 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 4640 "bison_parser.cpp"
+#line 4709 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
 #line 451 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 4646 "bison_parser.cpp"
+#line 4715 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
 #line 452 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4652 "bison_parser.cpp"
+#line 4721 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
@@ -4657,7 +4726,7 @@ yyreduce:
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4661 "bison_parser.cpp"
+#line 4730 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
@@ -4666,7 +4735,7 @@ yyreduce:
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4670 "bison_parser.cpp"
+#line 4739 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
@@ -4675,7 +4744,7 @@ yyreduce:
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 4679 "bison_parser.cpp"
+#line 4748 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
@@ -4685,25 +4754,25 @@ yyreduce:
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 4689 "bison_parser.cpp"
+#line 4758 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
 #line 477 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 4695 "bison_parser.cpp"
+#line 4764 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
 #line 478 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 4701 "bison_parser.cpp"
+#line 4770 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
 #line 479 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 4707 "bison_parser.cpp"
+#line 4776 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
@@ -4713,7 +4782,7 @@ yyreduce:
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 4717 "bison_parser.cpp"
+#line 4786 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
@@ -4722,7 +4791,7 @@ yyreduce:
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 4726 "bison_parser.cpp"
+#line 4795 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
@@ -4732,7 +4801,7 @@ yyreduce:
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 4736 "bison_parser.cpp"
+#line 4805 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
@@ -4743,7 +4812,7 @@ yyreduce:
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4747 "bison_parser.cpp"
+#line 4816 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
@@ -4764,7 +4833,7 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 4768 "bison_parser.cpp"
+#line 4837 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
@@ -4783,31 +4852,31 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 4787 "bison_parser.cpp"
+#line 4856 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
 #line 549 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 4793 "bison_parser.cpp"
+#line 4862 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
 #line 551 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4799 "bison_parser.cpp"
+#line 4868 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
 #line 552 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4805 "bison_parser.cpp"
+#line 4874 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
 #line 553 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 4811 "bison_parser.cpp"
+#line 4880 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
@@ -4826,7 +4895,7 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4830 "bison_parser.cpp"
+#line 4899 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
@@ -4835,7 +4904,7 @@ yyreduce:
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 4839 "bison_parser.cpp"
+#line 4908 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
@@ -4850,7 +4919,7 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4854 "bison_parser.cpp"
+#line 4923 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
@@ -4859,7 +4928,7 @@ yyreduce:
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 4863 "bison_parser.cpp"
+#line 4932 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
@@ -4888,7 +4957,7 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 4892 "bison_parser.cpp"
+#line 4961 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
@@ -4900,7 +4969,7 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 4904 "bison_parser.cpp"
+#line 4973 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
@@ -4918,13 +4987,13 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 4922 "bison_parser.cpp"
+#line 4991 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
 #line 632 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 4928 "bison_parser.cpp"
+#line 4997 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
@@ -4944,7 +5013,7 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 4948 "bison_parser.cpp"
+#line 5017 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
@@ -4963,13 +5032,13 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 4967 "bison_parser.cpp"
+#line 5036 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
 #line 674 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 4973 "bison_parser.cpp"
+#line 5042 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
@@ -4979,7 +5048,7 @@ yyreduce:
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4983 "bison_parser.cpp"
+#line 5052 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
@@ -4989,7 +5058,7 @@ yyreduce:
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 4993 "bison_parser.cpp"
+#line 5062 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
@@ -5009,7 +5078,7 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 5013 "bison_parser.cpp"
+#line 5082 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
@@ -5026,7 +5095,7 @@ yyreduce:
     YYERROR;
   }
 }
-#line 5030 "bison_parser.cpp"
+#line 5099 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
@@ -5038,7 +5107,7 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5042 "bison_parser.cpp"
+#line 5111 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
@@ -5051,7 +5120,7 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 5055 "bison_parser.cpp"
+#line 5124 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
@@ -5064,19 +5133,19 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5068 "bison_parser.cpp"
+#line 5137 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
 #line 742 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 5074 "bison_parser.cpp"
+#line 5143 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
 #line 743 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5080 "bison_parser.cpp"
+#line 5149 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
@@ -5085,7 +5154,7 @@ yyreduce:
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 5089 "bison_parser.cpp"
+#line 5158 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
@@ -5094,19 +5163,19 @@ yyreduce:
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 5098 "bison_parser.cpp"
+#line 5167 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
 #line 754 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 5104 "bison_parser.cpp"
+#line 5173 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
 #line 755 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 5110 "bison_parser.cpp"
+#line 5179 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
@@ -5118,43 +5187,43 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 5122 "bison_parser.cpp"
+#line 5191 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
 #line 765 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 5128 "bison_parser.cpp"
+#line 5197 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
 #line 766 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 5134 "bison_parser.cpp"
+#line 5203 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
 #line 767 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 5140 "bison_parser.cpp"
+#line 5209 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
 #line 768 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5146 "bison_parser.cpp"
+#line 5215 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
 #line 769 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 5152 "bison_parser.cpp"
+#line 5221 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
 #line 770 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5158 "bison_parser.cpp"
+#line 5227 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
@@ -5163,115 +5232,115 @@ yyreduce:
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 5167 "bison_parser.cpp"
+#line 5236 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
 #line 775 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 5173 "bison_parser.cpp"
+#line 5242 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
 #line 776 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 5179 "bison_parser.cpp"
+#line 5248 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
 #line 777 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5185 "bison_parser.cpp"
+#line 5254 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
 #line 778 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5191 "bison_parser.cpp"
+#line 5260 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
 #line 779 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 5197 "bison_parser.cpp"
+#line 5266 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
 #line 780 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 5203 "bison_parser.cpp"
+#line 5272 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
 #line 781 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 5209 "bison_parser.cpp"
+#line 5278 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
 #line 782 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 5215 "bison_parser.cpp"
+#line 5284 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
 #line 783 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 5221 "bison_parser.cpp"
+#line 5290 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
 #line 784 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5227 "bison_parser.cpp"
+#line 5296 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
 #line 785 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5233 "bison_parser.cpp"
+#line 5302 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
 #line 787 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 5239 "bison_parser.cpp"
+#line 5308 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
 #line 788 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 5245 "bison_parser.cpp"
+#line 5314 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
 #line 790 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 5251 "bison_parser.cpp"
+#line 5320 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
 #line 791 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 5257 "bison_parser.cpp"
+#line 5326 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
 #line 792 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 5263 "bison_parser.cpp"
+#line 5332 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
 #line 794 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 5269 "bison_parser.cpp"
+#line 5338 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
 #line 795 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 5275 "bison_parser.cpp"
+#line 5344 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
@@ -5280,7 +5349,7 @@ yyreduce:
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 5284 "bison_parser.cpp"
+#line 5353 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
@@ -5289,7 +5358,7 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5293 "bison_parser.cpp"
+#line 5362 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
@@ -5299,7 +5368,7 @@ yyreduce:
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 5303 "bison_parser.cpp"
+#line 5372 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
@@ -5311,55 +5380,55 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5315 "bison_parser.cpp"
+#line 5384 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
 #line 818 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 5321 "bison_parser.cpp"
+#line 5390 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
 #line 819 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 5327 "bison_parser.cpp"
+#line 5396 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
 #line 820 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 5333 "bison_parser.cpp"
+#line 5402 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
 #line 821 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 5339 "bison_parser.cpp"
+#line 5408 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
 #line 823 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 5345 "bison_parser.cpp"
+#line 5414 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
 #line 824 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 5351 "bison_parser.cpp"
+#line 5420 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
 #line 825 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 5357 "bison_parser.cpp"
+#line 5426 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
 #line 827 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 5363 "bison_parser.cpp"
+#line 5432 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
@@ -5370,7 +5439,7 @@ yyreduce:
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5374 "bison_parser.cpp"
+#line 5443 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
@@ -5381,7 +5450,7 @@ yyreduce:
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5385 "bison_parser.cpp"
+#line 5454 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
@@ -5391,7 +5460,7 @@ yyreduce:
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 5395 "bison_parser.cpp"
+#line 5464 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
@@ -5401,19 +5470,19 @@ yyreduce:
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 5405 "bison_parser.cpp"
+#line 5474 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
 #line 859 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 5411 "bison_parser.cpp"
+#line 5480 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
 #line 860 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5417 "bison_parser.cpp"
+#line 5486 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
@@ -5423,13 +5492,13 @@ yyreduce:
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 5427 "bison_parser.cpp"
+#line 5496 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
 #line 873 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 5433 "bison_parser.cpp"
+#line 5502 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
@@ -5438,7 +5507,7 @@ yyreduce:
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 5442 "bison_parser.cpp"
+#line 5511 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
@@ -5449,7 +5518,7 @@ yyreduce:
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 5453 "bison_parser.cpp"
+#line 5522 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
@@ -5459,7 +5528,7 @@ yyreduce:
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 5463 "bison_parser.cpp"
+#line 5532 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
@@ -5471,7 +5540,7 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 5475 "bison_parser.cpp"
+#line 5544 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
@@ -5483,19 +5552,19 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5487 "bison_parser.cpp"
+#line 5556 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
 #line 918 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 5493 "bison_parser.cpp"
+#line 5562 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
 #line 919 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 5499 "bison_parser.cpp"
+#line 5568 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
@@ -5506,7 +5575,7 @@ yyreduce:
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 5510 "bison_parser.cpp"
+#line 5579 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
@@ -5515,7 +5584,7 @@ yyreduce:
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 5519 "bison_parser.cpp"
+#line 5588 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
@@ -5524,7 +5593,7 @@ yyreduce:
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 5528 "bison_parser.cpp"
+#line 5597 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
@@ -5534,7 +5603,7 @@ yyreduce:
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 5538 "bison_parser.cpp"
+#line 5607 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
@@ -5543,7 +5612,7 @@ yyreduce:
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5547 "bison_parser.cpp"
+#line 5616 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
@@ -5552,7 +5621,7 @@ yyreduce:
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5556 "bison_parser.cpp"
+#line 5625 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
@@ -5568,13 +5637,13 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 5572 "bison_parser.cpp"
+#line 5641 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
 #line 974 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 5578 "bison_parser.cpp"
+#line 5647 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
@@ -5587,19 +5656,19 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 5591 "bison_parser.cpp"
+#line 5660 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
 #line 984 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5597 "bison_parser.cpp"
+#line 5666 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
 #line 985 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5603 "bison_parser.cpp"
+#line 5672 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
@@ -5618,7 +5687,7 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 5622 "bison_parser.cpp"
+#line 5691 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
@@ -5634,7 +5703,7 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 5638 "bison_parser.cpp"
+#line 5707 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
@@ -5643,7 +5712,7 @@ yyreduce:
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 5647 "bison_parser.cpp"
+#line 5716 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
@@ -5652,7 +5721,7 @@ yyreduce:
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 5656 "bison_parser.cpp"
+#line 5725 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
@@ -5661,7 +5730,7 @@ yyreduce:
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 5665 "bison_parser.cpp"
+#line 5734 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
@@ -5670,19 +5739,19 @@ yyreduce:
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 5674 "bison_parser.cpp"
+#line 5743 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
 #line 1031 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 5680 "bison_parser.cpp"
+#line 5749 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
 #line 1032 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5686 "bison_parser.cpp"
+#line 5755 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
@@ -5696,49 +5765,49 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 5700 "bison_parser.cpp"
+#line 5769 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
 #line 1044 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 5706 "bison_parser.cpp"
+#line 5775 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
 #line 1045 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5712 "bison_parser.cpp"
+#line 5781 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
 #line 1049 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 5718 "bison_parser.cpp"
+#line 5787 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
 #line 1050 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 5724 "bison_parser.cpp"
+#line 5793 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
 #line 1052 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 5730 "bison_parser.cpp"
+#line 5799 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
 #line 1054 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 5736 "bison_parser.cpp"
+#line 5805 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
 #line 1055 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5742 "bison_parser.cpp"
+#line 5811 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
@@ -5748,37 +5817,37 @@ yyreduce:
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 5752 "bison_parser.cpp"
+#line 5821 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
 #line 1062 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 5758 "bison_parser.cpp"
+#line 5827 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
 #line 1064 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 5764 "bison_parser.cpp"
+#line 5833 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
 #line 1065 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5770 "bison_parser.cpp"
+#line 5839 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
 #line 1067 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 5776 "bison_parser.cpp"
+#line 5845 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
 #line 1068 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 5782 "bison_parser.cpp"
+#line 5851 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
@@ -5787,7 +5856,7 @@ yyreduce:
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 5791 "bison_parser.cpp"
+#line 5860 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
@@ -5796,37 +5865,37 @@ yyreduce:
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 5800 "bison_parser.cpp"
+#line 5869 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
 #line 1079 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 5806 "bison_parser.cpp"
+#line 5875 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
 #line 1081 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 5812 "bison_parser.cpp"
+#line 5881 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
 #line 1082 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 5818 "bison_parser.cpp"
+#line 5887 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
 #line 1083 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 5824 "bison_parser.cpp"
+#line 5893 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
 #line 1085 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 5830 "bison_parser.cpp"
+#line 5899 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
@@ -5850,55 +5919,55 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 5854 "bison_parser.cpp"
+#line 5923 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
 #line 1108 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5860 "bison_parser.cpp"
+#line 5929 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
 #line 1109 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5866 "bison_parser.cpp"
+#line 5935 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
 #line 1111 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5872 "bison_parser.cpp"
+#line 5941 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
 #line 1112 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5878 "bison_parser.cpp"
+#line 5947 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
 #line 1113 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5884 "bison_parser.cpp"
+#line 5953 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
 #line 1114 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 5890 "bison_parser.cpp"
+#line 5959 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
 #line 1115 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5896 "bison_parser.cpp"
+#line 5965 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
 #line 1116 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5902 "bison_parser.cpp"
+#line 5971 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
@@ -5907,7 +5976,7 @@ yyreduce:
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 5911 "bison_parser.cpp"
+#line 5980 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
@@ -5916,19 +5985,19 @@ yyreduce:
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 5920 "bison_parser.cpp"
+#line 5989 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
 #line 1131 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5926 "bison_parser.cpp"
+#line 5995 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
 #line 1132 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 5932 "bison_parser.cpp"
+#line 6001 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
@@ -5937,7 +6006,7 @@ yyreduce:
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 5941 "bison_parser.cpp"
+#line 6010 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
@@ -5946,7 +6015,7 @@ yyreduce:
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 5950 "bison_parser.cpp"
+#line 6019 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
@@ -5954,7 +6023,7 @@ yyreduce:
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 5958 "bison_parser.cpp"
+#line 6027 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
@@ -5967,19 +6036,19 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 5971 "bison_parser.cpp"
+#line 6040 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
 #line 1155 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 5977 "bison_parser.cpp"
+#line 6046 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
 #line 1156 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 5983 "bison_parser.cpp"
+#line 6052 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
@@ -5992,522 +6061,540 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 5996 "bison_parser.cpp"
+#line 6065 "bison_parser.cpp"
     break;
 
-  case 188: /* operand: '(' expr ')'  */
+  case 189: /* operand: '(' expr ')'  */
 #line 1169 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 6002 "bison_parser.cpp"
+#line 6071 "bison_parser.cpp"
     break;
 
-  case 198: /* operand: '(' select_no_paren ')'  */
+  case 199: /* operand: '(' select_no_paren ')'  */
 #line 1171 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 6010 "bison_parser.cpp"
+#line 6079 "bison_parser.cpp"
     break;
 
-  case 201: /* unary_expr: '-' operand  */
+  case 202: /* unary_expr: '-' operand  */
 #line 1177 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6016 "bison_parser.cpp"
+#line 6085 "bison_parser.cpp"
     break;
 
-  case 202: /* unary_expr: NOT operand  */
+  case 203: /* unary_expr: NOT operand  */
 #line 1178 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6022 "bison_parser.cpp"
+#line 6091 "bison_parser.cpp"
     break;
 
-  case 203: /* unary_expr: operand ISNULL  */
+  case 204: /* unary_expr: operand ISNULL  */
 #line 1179 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 6028 "bison_parser.cpp"
+#line 6097 "bison_parser.cpp"
     break;
 
-  case 204: /* unary_expr: operand IS NULL  */
+  case 205: /* unary_expr: operand IS NULL  */
 #line 1180 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 6034 "bison_parser.cpp"
+#line 6103 "bison_parser.cpp"
     break;
 
-  case 205: /* unary_expr: operand IS NOT NULL  */
+  case 206: /* unary_expr: operand IS NOT NULL  */
 #line 1181 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 6040 "bison_parser.cpp"
+#line 6109 "bison_parser.cpp"
     break;
 
-  case 207: /* binary_expr: operand '-' operand  */
+  case 208: /* binary_expr: operand '-' operand  */
 #line 1183 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 6046 "bison_parser.cpp"
+#line 6115 "bison_parser.cpp"
     break;
 
-  case 208: /* binary_expr: operand '+' operand  */
+  case 209: /* binary_expr: operand '+' operand  */
 #line 1184 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 6052 "bison_parser.cpp"
+#line 6121 "bison_parser.cpp"
     break;
 
-  case 209: /* binary_expr: operand '/' operand  */
+  case 210: /* binary_expr: operand '/' operand  */
 #line 1185 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 6058 "bison_parser.cpp"
+#line 6127 "bison_parser.cpp"
     break;
 
-  case 210: /* binary_expr: operand '*' operand  */
+  case 211: /* binary_expr: operand '*' operand  */
 #line 1186 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 6064 "bison_parser.cpp"
+#line 6133 "bison_parser.cpp"
     break;
 
-  case 211: /* binary_expr: operand '%' operand  */
+  case 212: /* binary_expr: operand '%' operand  */
 #line 1187 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 6070 "bison_parser.cpp"
+#line 6139 "bison_parser.cpp"
     break;
 
-  case 212: /* binary_expr: operand '^' operand  */
+  case 213: /* binary_expr: operand '^' operand  */
 #line 1188 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 6076 "bison_parser.cpp"
+#line 6145 "bison_parser.cpp"
     break;
 
-  case 213: /* binary_expr: operand LIKE operand  */
+  case 214: /* binary_expr: operand LIKE operand  */
 #line 1189 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 6082 "bison_parser.cpp"
+#line 6151 "bison_parser.cpp"
     break;
 
-  case 214: /* binary_expr: operand NOT LIKE operand  */
+  case 215: /* binary_expr: operand NOT LIKE operand  */
 #line 1190 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 6088 "bison_parser.cpp"
+#line 6157 "bison_parser.cpp"
     break;
 
-  case 215: /* binary_expr: operand ILIKE operand  */
+  case 216: /* binary_expr: operand ILIKE operand  */
 #line 1191 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 6094 "bison_parser.cpp"
+#line 6163 "bison_parser.cpp"
     break;
 
-  case 216: /* binary_expr: operand CONCAT operand  */
+  case 217: /* binary_expr: operand CONCAT operand  */
 #line 1192 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 6100 "bison_parser.cpp"
+#line 6169 "bison_parser.cpp"
     break;
 
-  case 217: /* logic_expr: expr AND expr  */
+  case 218: /* logic_expr: expr AND expr  */
 #line 1194 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 6106 "bison_parser.cpp"
+#line 6175 "bison_parser.cpp"
     break;
 
-  case 218: /* logic_expr: expr OR expr  */
+  case 219: /* logic_expr: expr OR expr  */
 #line 1195 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 6112 "bison_parser.cpp"
+#line 6181 "bison_parser.cpp"
     break;
 
-  case 219: /* in_expr: operand IN '(' expr_list ')'  */
+  case 220: /* in_expr: operand IN '(' expr_list ')'  */
 #line 1197 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 6118 "bison_parser.cpp"
+#line 6187 "bison_parser.cpp"
     break;
 
-  case 220: /* in_expr: operand NOT IN '(' expr_list ')'  */
+  case 221: /* in_expr: operand NOT IN '(' expr_list ')'  */
 #line 1198 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 6124 "bison_parser.cpp"
+#line 6193 "bison_parser.cpp"
     break;
 
-  case 221: /* in_expr: operand IN '(' select_no_paren ')'  */
+  case 222: /* in_expr: operand IN '(' select_no_paren ')'  */
 #line 1199 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 6130 "bison_parser.cpp"
+#line 6199 "bison_parser.cpp"
     break;
 
-  case 222: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
+  case 223: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
 #line 1200 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 6136 "bison_parser.cpp"
+#line 6205 "bison_parser.cpp"
+    break;
+
+  case 224: /* not_expr: NOT between_expr  */
+#line 1203 "bison_parser.y"
+                            { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 6211 "bison_parser.cpp"
     break;
 
-  case 223: /* case_expr: CASE expr case_list END  */
+  case 225: /* not_expr: NOT in_expr  */
 #line 1204 "bison_parser.y"
-                                    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 6142 "bison_parser.cpp"
+              { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 6217 "bison_parser.cpp"
     break;
 
-  case 224: /* case_expr: CASE expr case_list ELSE expr END  */
+  case 226: /* not_expr: NOT not_expr  */
 #line 1205 "bison_parser.y"
+               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
+#line 6223 "bison_parser.cpp"
+    break;
+
+  case 227: /* case_expr: CASE expr case_list END  */
+#line 1209 "bison_parser.y"
+                                    { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
+#line 6229 "bison_parser.cpp"
+    break;
+
+  case 228: /* case_expr: CASE expr case_list ELSE expr END  */
+#line 1210 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6148 "bison_parser.cpp"
+#line 6235 "bison_parser.cpp"
     break;
 
-  case 225: /* case_expr: CASE case_list END  */
-#line 1206 "bison_parser.y"
+  case 229: /* case_expr: CASE case_list END  */
+#line 1211 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 6154 "bison_parser.cpp"
+#line 6241 "bison_parser.cpp"
     break;
 
-  case 226: /* case_expr: CASE case_list ELSE expr END  */
-#line 1207 "bison_parser.y"
+  case 230: /* case_expr: CASE case_list ELSE expr END  */
+#line 1212 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6160 "bison_parser.cpp"
+#line 6247 "bison_parser.cpp"
     break;
 
-  case 227: /* case_list: WHEN expr THEN expr  */
-#line 1209 "bison_parser.y"
+  case 231: /* case_list: WHEN expr THEN expr  */
+#line 1214 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6166 "bison_parser.cpp"
+#line 6253 "bison_parser.cpp"
     break;
 
-  case 228: /* case_list: case_list WHEN expr THEN expr  */
-#line 1210 "bison_parser.y"
+  case 232: /* case_list: case_list WHEN expr THEN expr  */
+#line 1215 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6172 "bison_parser.cpp"
+#line 6259 "bison_parser.cpp"
     break;
 
-  case 229: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1212 "bison_parser.y"
+  case 233: /* exists_expr: EXISTS '(' select_no_paren ')'  */
+#line 1217 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 6178 "bison_parser.cpp"
+#line 6265 "bison_parser.cpp"
     break;
 
-  case 230: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1213 "bison_parser.y"
+  case 234: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
+#line 1218 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 6184 "bison_parser.cpp"
+#line 6271 "bison_parser.cpp"
     break;
 
-  case 231: /* comp_expr: operand '=' operand  */
-#line 1215 "bison_parser.y"
+  case 235: /* comp_expr: operand '=' operand  */
+#line 1220 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6190 "bison_parser.cpp"
+#line 6277 "bison_parser.cpp"
     break;
 
-  case 232: /* comp_expr: operand EQUALS operand  */
-#line 1216 "bison_parser.y"
+  case 236: /* comp_expr: operand EQUALS operand  */
+#line 1221 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6196 "bison_parser.cpp"
+#line 6283 "bison_parser.cpp"
     break;
 
-  case 233: /* comp_expr: operand NOTEQUALS operand  */
-#line 1217 "bison_parser.y"
+  case 237: /* comp_expr: operand NOTEQUALS operand  */
+#line 1222 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 6202 "bison_parser.cpp"
+#line 6289 "bison_parser.cpp"
     break;
 
-  case 234: /* comp_expr: operand '<' operand  */
-#line 1218 "bison_parser.y"
+  case 238: /* comp_expr: operand '<' operand  */
+#line 1223 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 6208 "bison_parser.cpp"
+#line 6295 "bison_parser.cpp"
     break;
 
-  case 235: /* comp_expr: operand '>' operand  */
-#line 1219 "bison_parser.y"
+  case 239: /* comp_expr: operand '>' operand  */
+#line 1224 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 6214 "bison_parser.cpp"
+#line 6301 "bison_parser.cpp"
     break;
 
-  case 236: /* comp_expr: operand LESSEQ operand  */
-#line 1220 "bison_parser.y"
+  case 240: /* comp_expr: operand LESSEQ operand  */
+#line 1225 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 6220 "bison_parser.cpp"
+#line 6307 "bison_parser.cpp"
     break;
 
-  case 237: /* comp_expr: operand GREATEREQ operand  */
-#line 1221 "bison_parser.y"
+  case 241: /* comp_expr: operand GREATEREQ operand  */
+#line 1226 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 6226 "bison_parser.cpp"
+#line 6313 "bison_parser.cpp"
     break;
 
-  case 238: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1225 "bison_parser.y"
+  case 242: /* function_expr: IDENTIFIER '(' ')' opt_window  */
+#line 1230 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6232 "bison_parser.cpp"
+#line 6319 "bison_parser.cpp"
     break;
 
-  case 239: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1226 "bison_parser.y"
+  case 243: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1231 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6238 "bison_parser.cpp"
+#line 6325 "bison_parser.cpp"
     break;
 
-  case 240: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1227 "bison_parser.y"
+  case 244: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
+#line 1232 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6244 "bison_parser.cpp"
+#line 6331 "bison_parser.cpp"
     break;
 
-  case 241: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1228 "bison_parser.y"
+  case 245: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
+#line 1233 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6250 "bison_parser.cpp"
+#line 6337 "bison_parser.cpp"
     break;
 
-  case 242: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1232 "bison_parser.y"
+  case 246: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
+#line 1237 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 6256 "bison_parser.cpp"
+#line 6343 "bison_parser.cpp"
     break;
 
-  case 243: /* opt_window: %empty  */
-#line 1233 "bison_parser.y"
+  case 247: /* opt_window: %empty  */
+#line 1238 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 6262 "bison_parser.cpp"
+#line 6349 "bison_parser.cpp"
     break;
 
-  case 244: /* opt_partition: PARTITION BY expr_list  */
-#line 1235 "bison_parser.y"
+  case 248: /* opt_partition: PARTITION BY expr_list  */
+#line 1240 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 6268 "bison_parser.cpp"
+#line 6355 "bison_parser.cpp"
     break;
 
-  case 245: /* opt_partition: %empty  */
-#line 1236 "bison_parser.y"
+  case 249: /* opt_partition: %empty  */
+#line 1241 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 6274 "bison_parser.cpp"
+#line 6361 "bison_parser.cpp"
     break;
 
-  case 246: /* opt_frame_clause: frame_type frame_bound  */
-#line 1241 "bison_parser.y"
+  case 250: /* opt_frame_clause: frame_type frame_bound  */
+#line 1246 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 6280 "bison_parser.cpp"
+#line 6367 "bison_parser.cpp"
     break;
 
-  case 247: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1242 "bison_parser.y"
+  case 251: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
+#line 1247 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 6286 "bison_parser.cpp"
+#line 6373 "bison_parser.cpp"
     break;
 
-  case 248: /* opt_frame_clause: %empty  */
-#line 1243 "bison_parser.y"
+  case 252: /* opt_frame_clause: %empty  */
+#line 1248 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 6294 "bison_parser.cpp"
+#line 6381 "bison_parser.cpp"
     break;
 
-  case 249: /* frame_type: RANGE  */
-#line 1247 "bison_parser.y"
+  case 253: /* frame_type: RANGE  */
+#line 1252 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 6300 "bison_parser.cpp"
+#line 6387 "bison_parser.cpp"
     break;
 
-  case 250: /* frame_type: ROWS  */
-#line 1248 "bison_parser.y"
+  case 254: /* frame_type: ROWS  */
+#line 1253 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 6306 "bison_parser.cpp"
+#line 6393 "bison_parser.cpp"
     break;
 
-  case 251: /* frame_type: GROUPS  */
-#line 1249 "bison_parser.y"
+  case 255: /* frame_type: GROUPS  */
+#line 1254 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 6312 "bison_parser.cpp"
+#line 6399 "bison_parser.cpp"
     break;
 
-  case 252: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1251 "bison_parser.y"
+  case 256: /* frame_bound: UNBOUNDED PRECEDING  */
+#line 1256 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 6318 "bison_parser.cpp"
+#line 6405 "bison_parser.cpp"
     break;
 
-  case 253: /* frame_bound: INTVAL PRECEDING  */
-#line 1252 "bison_parser.y"
+  case 257: /* frame_bound: INTVAL PRECEDING  */
+#line 1257 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 6324 "bison_parser.cpp"
+#line 6411 "bison_parser.cpp"
     break;
 
-  case 254: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1253 "bison_parser.y"
+  case 258: /* frame_bound: UNBOUNDED FOLLOWING  */
+#line 1258 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 6330 "bison_parser.cpp"
+#line 6417 "bison_parser.cpp"
     break;
 
-  case 255: /* frame_bound: INTVAL FOLLOWING  */
-#line 1254 "bison_parser.y"
+  case 259: /* frame_bound: INTVAL FOLLOWING  */
+#line 1259 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 6336 "bison_parser.cpp"
+#line 6423 "bison_parser.cpp"
     break;
 
-  case 256: /* frame_bound: CURRENT_ROW  */
-#line 1255 "bison_parser.y"
+  case 260: /* frame_bound: CURRENT_ROW  */
+#line 1260 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 6342 "bison_parser.cpp"
+#line 6429 "bison_parser.cpp"
     break;
 
-  case 257: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1257 "bison_parser.y"
+  case 261: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
+#line 1262 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 6348 "bison_parser.cpp"
+#line 6435 "bison_parser.cpp"
     break;
 
-  case 258: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1259 "bison_parser.y"
+  case 262: /* cast_expr: CAST '(' expr AS column_type ')'  */
+#line 1264 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 6354 "bison_parser.cpp"
+#line 6441 "bison_parser.cpp"
     break;
 
-  case 259: /* datetime_field: SECOND  */
-#line 1261 "bison_parser.y"
+  case 263: /* datetime_field: SECOND  */
+#line 1266 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6360 "bison_parser.cpp"
+#line 6447 "bison_parser.cpp"
     break;
 
-  case 260: /* datetime_field: MINUTE  */
-#line 1262 "bison_parser.y"
+  case 264: /* datetime_field: MINUTE  */
+#line 1267 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6366 "bison_parser.cpp"
+#line 6453 "bison_parser.cpp"
     break;
 
-  case 261: /* datetime_field: HOUR  */
-#line 1263 "bison_parser.y"
+  case 265: /* datetime_field: HOUR  */
+#line 1268 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 6372 "bison_parser.cpp"
+#line 6459 "bison_parser.cpp"
     break;
 
-  case 262: /* datetime_field: DAY  */
-#line 1264 "bison_parser.y"
+  case 266: /* datetime_field: DAY  */
+#line 1269 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 6378 "bison_parser.cpp"
+#line 6465 "bison_parser.cpp"
     break;
 
-  case 263: /* datetime_field: MONTH  */
-#line 1265 "bison_parser.y"
+  case 267: /* datetime_field: MONTH  */
+#line 1270 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6384 "bison_parser.cpp"
+#line 6471 "bison_parser.cpp"
     break;
 
-  case 264: /* datetime_field: YEAR  */
-#line 1266 "bison_parser.y"
+  case 268: /* datetime_field: YEAR  */
+#line 1271 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 6390 "bison_parser.cpp"
+#line 6477 "bison_parser.cpp"
     break;
 
-  case 265: /* datetime_field_plural: SECONDS  */
-#line 1268 "bison_parser.y"
+  case 269: /* datetime_field_plural: SECONDS  */
+#line 1273 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6396 "bison_parser.cpp"
+#line 6483 "bison_parser.cpp"
     break;
 
-  case 266: /* datetime_field_plural: MINUTES  */
-#line 1269 "bison_parser.y"
+  case 270: /* datetime_field_plural: MINUTES  */
+#line 1274 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6402 "bison_parser.cpp"
+#line 6489 "bison_parser.cpp"
     break;
 
-  case 267: /* datetime_field_plural: HOURS  */
-#line 1270 "bison_parser.y"
+  case 271: /* datetime_field_plural: HOURS  */
+#line 1275 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 6408 "bison_parser.cpp"
+#line 6495 "bison_parser.cpp"
     break;
 
-  case 268: /* datetime_field_plural: DAYS  */
-#line 1271 "bison_parser.y"
+  case 272: /* datetime_field_plural: DAYS  */
+#line 1276 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 6414 "bison_parser.cpp"
+#line 6501 "bison_parser.cpp"
     break;
 
-  case 269: /* datetime_field_plural: MONTHS  */
-#line 1272 "bison_parser.y"
+  case 273: /* datetime_field_plural: MONTHS  */
+#line 1277 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6420 "bison_parser.cpp"
+#line 6507 "bison_parser.cpp"
     break;
 
-  case 270: /* datetime_field_plural: YEARS  */
-#line 1273 "bison_parser.y"
+  case 274: /* datetime_field_plural: YEARS  */
+#line 1278 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 6426 "bison_parser.cpp"
+#line 6513 "bison_parser.cpp"
     break;
 
-  case 273: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1277 "bison_parser.y"
+  case 277: /* array_expr: ARRAY '[' expr_list ']'  */
+#line 1282 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 6432 "bison_parser.cpp"
+#line 6519 "bison_parser.cpp"
     break;
 
-  case 274: /* array_index: operand '[' int_literal ']'  */
-#line 1279 "bison_parser.y"
+  case 278: /* array_index: operand '[' int_literal ']'  */
+#line 1284 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 6441 "bison_parser.cpp"
+#line 6528 "bison_parser.cpp"
     break;
 
-  case 275: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1284 "bison_parser.y"
+  case 279: /* between_expr: operand BETWEEN operand AND operand  */
+#line 1289 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 6447 "bison_parser.cpp"
+#line 6534 "bison_parser.cpp"
     break;
 
-  case 276: /* column_name: IDENTIFIER  */
-#line 1286 "bison_parser.y"
+  case 280: /* column_name: IDENTIFIER  */
+#line 1291 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 6453 "bison_parser.cpp"
+#line 6540 "bison_parser.cpp"
     break;
 
-  case 277: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1287 "bison_parser.y"
+  case 281: /* column_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1292 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 6459 "bison_parser.cpp"
+#line 6546 "bison_parser.cpp"
     break;
 
-  case 278: /* column_name: '*'  */
-#line 1288 "bison_parser.y"
+  case 282: /* column_name: '*'  */
+#line 1293 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 6465 "bison_parser.cpp"
+#line 6552 "bison_parser.cpp"
     break;
 
-  case 279: /* column_name: IDENTIFIER '.' '*'  */
-#line 1289 "bison_parser.y"
+  case 283: /* column_name: IDENTIFIER '.' '*'  */
+#line 1294 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 6471 "bison_parser.cpp"
+#line 6558 "bison_parser.cpp"
     break;
 
-  case 287: /* string_literal: STRING  */
-#line 1293 "bison_parser.y"
+  case 291: /* string_literal: STRING  */
+#line 1298 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 6477 "bison_parser.cpp"
+#line 6564 "bison_parser.cpp"
     break;
 
-  case 288: /* bool_literal: TRUE  */
-#line 1295 "bison_parser.y"
+  case 292: /* bool_literal: TRUE  */
+#line 1300 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 6483 "bison_parser.cpp"
+#line 6570 "bison_parser.cpp"
     break;
 
-  case 289: /* bool_literal: FALSE  */
-#line 1296 "bison_parser.y"
+  case 293: /* bool_literal: FALSE  */
+#line 1301 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 6489 "bison_parser.cpp"
+#line 6576 "bison_parser.cpp"
     break;
 
-  case 290: /* num_literal: FLOATVAL  */
-#line 1298 "bison_parser.y"
+  case 294: /* num_literal: FLOATVAL  */
+#line 1303 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 6495 "bison_parser.cpp"
+#line 6582 "bison_parser.cpp"
     break;
 
-  case 292: /* int_literal: INTVAL  */
-#line 1301 "bison_parser.y"
+  case 296: /* int_literal: INTVAL  */
+#line 1306 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 6501 "bison_parser.cpp"
+#line 6588 "bison_parser.cpp"
     break;
 
-  case 293: /* null_literal: NULL  */
-#line 1303 "bison_parser.y"
+  case 297: /* null_literal: NULL  */
+#line 1308 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 6507 "bison_parser.cpp"
+#line 6594 "bison_parser.cpp"
     break;
 
-  case 294: /* date_literal: DATE STRING  */
-#line 1305 "bison_parser.y"
+  case 298: /* date_literal: DATE STRING  */
+#line 1310 "bison_parser.y"
                            {
   int day{0}, month{0}, year{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -6518,17 +6605,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 6522 "bison_parser.cpp"
+#line 6609 "bison_parser.cpp"
     break;
 
-  case 295: /* interval_literal: INTVAL duration_field  */
-#line 1316 "bison_parser.y"
+  case 299: /* interval_literal: INTVAL duration_field  */
+#line 1321 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 6528 "bison_parser.cpp"
+#line 6615 "bison_parser.cpp"
     break;
 
-  case 296: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1317 "bison_parser.y"
+  case 300: /* interval_literal: INTERVAL STRING datetime_field  */
+#line 1322 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -6540,11 +6627,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 6544 "bison_parser.cpp"
+#line 6631 "bison_parser.cpp"
     break;
 
-  case 297: /* interval_literal: INTERVAL STRING  */
-#line 1328 "bison_parser.y"
+  case 301: /* interval_literal: INTERVAL STRING  */
+#line 1333 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -6576,61 +6663,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 6580 "bison_parser.cpp"
+#line 6667 "bison_parser.cpp"
     break;
 
-  case 298: /* param_expr: '?'  */
-#line 1360 "bison_parser.y"
+  case 302: /* param_expr: '?'  */
+#line 1365 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yylloc.param_list->size();
   yylloc.param_list->push_back((yyval.expr));
 }
-#line 6590 "bison_parser.cpp"
+#line 6677 "bison_parser.cpp"
     break;
 
-  case 300: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1369 "bison_parser.y"
+  case 304: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
+#line 1374 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 6601 "bison_parser.cpp"
+#line 6688 "bison_parser.cpp"
     break;
 
-  case 304: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1378 "bison_parser.y"
+  case 308: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
+#line 1383 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6612 "bison_parser.cpp"
+#line 6699 "bison_parser.cpp"
     break;
 
-  case 305: /* table_ref_commalist: table_ref_atomic  */
-#line 1385 "bison_parser.y"
+  case 309: /* table_ref_commalist: table_ref_atomic  */
+#line 1390 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 6621 "bison_parser.cpp"
+#line 6708 "bison_parser.cpp"
     break;
 
-  case 306: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1389 "bison_parser.y"
+  case 310: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
+#line 1394 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 6630 "bison_parser.cpp"
+#line 6717 "bison_parser.cpp"
     break;
 
-  case 307: /* table_ref_name: table_name opt_table_alias  */
-#line 1394 "bison_parser.y"
+  case 311: /* table_ref_name: table_name opt_table_alias  */
+#line 1399 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -6638,215 +6725,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6642 "bison_parser.cpp"
+#line 6729 "bison_parser.cpp"
     break;
 
-  case 308: /* table_ref_name_no_alias: table_name  */
-#line 1402 "bison_parser.y"
+  case 312: /* table_ref_name_no_alias: table_name  */
+#line 1407 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 6652 "bison_parser.cpp"
+#line 6739 "bison_parser.cpp"
     break;
 
-  case 309: /* table_name: IDENTIFIER  */
-#line 1408 "bison_parser.y"
+  case 313: /* table_name: IDENTIFIER  */
+#line 1413 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6661 "bison_parser.cpp"
+#line 6748 "bison_parser.cpp"
     break;
 
-  case 310: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1412 "bison_parser.y"
+  case 314: /* table_name: IDENTIFIER '.' IDENTIFIER  */
+#line 1417 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6670 "bison_parser.cpp"
+#line 6757 "bison_parser.cpp"
     break;
 
-  case 311: /* opt_index_name: IDENTIFIER  */
-#line 1417 "bison_parser.y"
+  case 315: /* opt_index_name: IDENTIFIER  */
+#line 1422 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 6676 "bison_parser.cpp"
+#line 6763 "bison_parser.cpp"
     break;
 
-  case 312: /* opt_index_name: %empty  */
-#line 1418 "bison_parser.y"
+  case 316: /* opt_index_name: %empty  */
+#line 1423 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 6682 "bison_parser.cpp"
+#line 6769 "bison_parser.cpp"
     break;
 
-  case 314: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1420 "bison_parser.y"
+  case 318: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
+#line 1425 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 6688 "bison_parser.cpp"
+#line 6775 "bison_parser.cpp"
     break;
 
-  case 316: /* opt_table_alias: %empty  */
-#line 1422 "bison_parser.y"
+  case 320: /* opt_table_alias: %empty  */
+#line 1427 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 6694 "bison_parser.cpp"
+#line 6781 "bison_parser.cpp"
     break;
 
-  case 317: /* alias: AS IDENTIFIER  */
-#line 1424 "bison_parser.y"
+  case 321: /* alias: AS IDENTIFIER  */
+#line 1429 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6700 "bison_parser.cpp"
+#line 6787 "bison_parser.cpp"
     break;
 
-  case 318: /* alias: IDENTIFIER  */
-#line 1425 "bison_parser.y"
+  case 322: /* alias: IDENTIFIER  */
+#line 1430 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6706 "bison_parser.cpp"
+#line 6793 "bison_parser.cpp"
     break;
 
-  case 320: /* opt_alias: %empty  */
-#line 1427 "bison_parser.y"
+  case 324: /* opt_alias: %empty  */
+#line 1432 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 6712 "bison_parser.cpp"
+#line 6799 "bison_parser.cpp"
     break;
 
-  case 321: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1433 "bison_parser.y"
+  case 325: /* opt_locking_clause: opt_locking_clause_list  */
+#line 1438 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 6718 "bison_parser.cpp"
+#line 6805 "bison_parser.cpp"
     break;
 
-  case 322: /* opt_locking_clause: %empty  */
-#line 1434 "bison_parser.y"
+  case 326: /* opt_locking_clause: %empty  */
+#line 1439 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 6724 "bison_parser.cpp"
+#line 6811 "bison_parser.cpp"
     break;
 
-  case 323: /* opt_locking_clause_list: locking_clause  */
-#line 1436 "bison_parser.y"
+  case 327: /* opt_locking_clause_list: locking_clause  */
+#line 1441 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 6733 "bison_parser.cpp"
+#line 6820 "bison_parser.cpp"
     break;
 
-  case 324: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1440 "bison_parser.y"
+  case 328: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
+#line 1445 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 6742 "bison_parser.cpp"
+#line 6829 "bison_parser.cpp"
     break;
 
-  case 325: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1445 "bison_parser.y"
+  case 329: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
+#line 1450 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 6753 "bison_parser.cpp"
+#line 6840 "bison_parser.cpp"
     break;
 
-  case 326: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1451 "bison_parser.y"
+  case 330: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
+#line 1456 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 6764 "bison_parser.cpp"
+#line 6851 "bison_parser.cpp"
     break;
 
-  case 327: /* row_lock_mode: UPDATE  */
-#line 1458 "bison_parser.y"
+  case 331: /* row_lock_mode: UPDATE  */
+#line 1463 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 6770 "bison_parser.cpp"
+#line 6857 "bison_parser.cpp"
     break;
 
-  case 328: /* row_lock_mode: NO KEY UPDATE  */
-#line 1459 "bison_parser.y"
+  case 332: /* row_lock_mode: NO KEY UPDATE  */
+#line 1464 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 6776 "bison_parser.cpp"
+#line 6863 "bison_parser.cpp"
     break;
 
-  case 329: /* row_lock_mode: SHARE  */
-#line 1460 "bison_parser.y"
+  case 333: /* row_lock_mode: SHARE  */
+#line 1465 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 6782 "bison_parser.cpp"
+#line 6869 "bison_parser.cpp"
     break;
 
-  case 330: /* row_lock_mode: KEY SHARE  */
-#line 1461 "bison_parser.y"
+  case 334: /* row_lock_mode: KEY SHARE  */
+#line 1466 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 6788 "bison_parser.cpp"
+#line 6875 "bison_parser.cpp"
     break;
 
-  case 331: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1463 "bison_parser.y"
+  case 335: /* opt_row_lock_policy: SKIP LOCKED  */
+#line 1468 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 6794 "bison_parser.cpp"
+#line 6881 "bison_parser.cpp"
     break;
 
-  case 332: /* opt_row_lock_policy: NOWAIT  */
-#line 1464 "bison_parser.y"
+  case 336: /* opt_row_lock_policy: NOWAIT  */
+#line 1469 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 6800 "bison_parser.cpp"
+#line 6887 "bison_parser.cpp"
     break;
 
-  case 333: /* opt_row_lock_policy: %empty  */
-#line 1465 "bison_parser.y"
+  case 337: /* opt_row_lock_policy: %empty  */
+#line 1470 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 6806 "bison_parser.cpp"
+#line 6893 "bison_parser.cpp"
     break;
 
-  case 335: /* opt_with_clause: %empty  */
-#line 1471 "bison_parser.y"
+  case 339: /* opt_with_clause: %empty  */
+#line 1476 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 6812 "bison_parser.cpp"
+#line 6899 "bison_parser.cpp"
     break;
 
-  case 336: /* with_clause: WITH with_description_list  */
-#line 1473 "bison_parser.y"
+  case 340: /* with_clause: WITH with_description_list  */
+#line 1478 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 6818 "bison_parser.cpp"
+#line 6905 "bison_parser.cpp"
     break;
 
-  case 337: /* with_description_list: with_description  */
-#line 1475 "bison_parser.y"
+  case 341: /* with_description_list: with_description  */
+#line 1480 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 6827 "bison_parser.cpp"
+#line 6914 "bison_parser.cpp"
     break;
 
-  case 338: /* with_description_list: with_description_list ',' with_description  */
-#line 1479 "bison_parser.y"
+  case 342: /* with_description_list: with_description_list ',' with_description  */
+#line 1484 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 6836 "bison_parser.cpp"
+#line 6923 "bison_parser.cpp"
     break;
 
-  case 339: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1484 "bison_parser.y"
+  case 343: /* with_description: IDENTIFIER AS select_with_paren  */
+#line 1489 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 6846 "bison_parser.cpp"
+#line 6933 "bison_parser.cpp"
     break;
 
-  case 340: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1494 "bison_parser.y"
+  case 344: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
+#line 1499 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6854,11 +6941,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 6858 "bison_parser.cpp"
+#line 6945 "bison_parser.cpp"
     break;
 
-  case 341: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1501 "bison_parser.y"
+  case 345: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
+#line 1506 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6867,11 +6954,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 6871 "bison_parser.cpp"
+#line 6958 "bison_parser.cpp"
     break;
 
-  case 342: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1509 "bison_parser.y"
+  case 346: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
+#line 1514 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6880,101 +6967,101 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 6884 "bison_parser.cpp"
+#line 6971 "bison_parser.cpp"
     break;
 
-  case 343: /* opt_join_type: INNER  */
-#line 1518 "bison_parser.y"
+  case 347: /* opt_join_type: INNER  */
+#line 1523 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 6890 "bison_parser.cpp"
+#line 6977 "bison_parser.cpp"
     break;
 
-  case 344: /* opt_join_type: LEFT OUTER  */
-#line 1519 "bison_parser.y"
+  case 348: /* opt_join_type: LEFT OUTER  */
+#line 1524 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 6896 "bison_parser.cpp"
+#line 6983 "bison_parser.cpp"
     break;
 
-  case 345: /* opt_join_type: LEFT  */
-#line 1520 "bison_parser.y"
+  case 349: /* opt_join_type: LEFT  */
+#line 1525 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 6902 "bison_parser.cpp"
+#line 6989 "bison_parser.cpp"
     break;
 
-  case 346: /* opt_join_type: RIGHT OUTER  */
-#line 1521 "bison_parser.y"
+  case 350: /* opt_join_type: RIGHT OUTER  */
+#line 1526 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 6908 "bison_parser.cpp"
+#line 6995 "bison_parser.cpp"
     break;
 
-  case 347: /* opt_join_type: RIGHT  */
-#line 1522 "bison_parser.y"
+  case 351: /* opt_join_type: RIGHT  */
+#line 1527 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 6914 "bison_parser.cpp"
+#line 7001 "bison_parser.cpp"
     break;
 
-  case 348: /* opt_join_type: FULL OUTER  */
-#line 1523 "bison_parser.y"
+  case 352: /* opt_join_type: FULL OUTER  */
+#line 1528 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 6920 "bison_parser.cpp"
+#line 7007 "bison_parser.cpp"
     break;
 
-  case 349: /* opt_join_type: OUTER  */
-#line 1524 "bison_parser.y"
+  case 353: /* opt_join_type: OUTER  */
+#line 1529 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 6926 "bison_parser.cpp"
+#line 7013 "bison_parser.cpp"
     break;
 
-  case 350: /* opt_join_type: FULL  */
-#line 1525 "bison_parser.y"
+  case 354: /* opt_join_type: FULL  */
+#line 1530 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 6932 "bison_parser.cpp"
+#line 7019 "bison_parser.cpp"
     break;
 
-  case 351: /* opt_join_type: CROSS  */
-#line 1526 "bison_parser.y"
+  case 355: /* opt_join_type: CROSS  */
+#line 1531 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 6938 "bison_parser.cpp"
+#line 7025 "bison_parser.cpp"
     break;
 
-  case 352: /* opt_join_type: %empty  */
-#line 1527 "bison_parser.y"
+  case 356: /* opt_join_type: %empty  */
+#line 1532 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 6944 "bison_parser.cpp"
+#line 7031 "bison_parser.cpp"
     break;
 
-  case 354: /* opt_semicolon: ';'  */
-#line 1535 "bison_parser.y"
+  case 358: /* opt_semicolon: ';'  */
+#line 1540 "bison_parser.y"
                     { (yyloc).total_column = (yylsp[0]).total_column; }
-#line 6950 "bison_parser.cpp"
+#line 7037 "bison_parser.cpp"
     break;
 
-  case 355: /* opt_semicolon: %empty  */
-#line 1536 "bison_parser.y"
+  case 359: /* opt_semicolon: %empty  */
+#line 1541 "bison_parser.y"
                                                     { (yyloc).total_column = yylloc.total_column; }
-#line 6956 "bison_parser.cpp"
+#line 7043 "bison_parser.cpp"
     break;
 
-  case 356: /* ident_commalist: IDENTIFIER  */
-#line 1538 "bison_parser.y"
+  case 360: /* ident_commalist: IDENTIFIER  */
+#line 1543 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 6965 "bison_parser.cpp"
+#line 7052 "bison_parser.cpp"
     break;
 
-  case 357: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1542 "bison_parser.y"
+  case 361: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
+#line 1547 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 6974 "bison_parser.cpp"
+#line 7061 "bison_parser.cpp"
     break;
 
 
-#line 6978 "bison_parser.cpp"
+#line 7065 "bison_parser.cpp"
 
       default: break;
     }
@@ -7203,7 +7290,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1548 "bison_parser.y"
+#line 1553 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 7842f7c..bd0809f 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -318,7 +318,7 @@
 %type <expr>                   expr operand scalar_expr unary_expr binary_expr logic_expr exists_expr extract_expr cast_expr
 %type <expr>                   function_expr between_expr expr_alias param_expr
 %type <expr>                   column_name literal int_literal num_literal string_literal bool_literal date_literal interval_literal
-%type <expr>                   comp_expr opt_where join_condition opt_having case_expr case_list in_expr hint
+%type <expr>                   comp_expr opt_where join_condition opt_having case_expr case_list in_expr not_expr hint
 %type <expr>                   array_expr array_index null_literal extended_literal casted_extended_literal
 %type <limit>                  opt_limit opt_top
 %type <order>                  order_desc
@@ -364,7 +364,7 @@
 %left     OR
 %left     AND
 %right    NOT
-%nonassoc '=' EQUALS NOTEQUALS LIKE ILIKE
+%nonassoc '=' EQUALS NOTEQUALS LIKE ILIKE IN BETWEEN
 %nonassoc '<' '>' LESS GREATER LESSEQ GREATEREQ
 
 %nonassoc NOTNULL
@@ -1164,7 +1164,7 @@ expr_alias : expr opt_alias {
   }
 };
 
-expr : operand | between_expr | logic_expr | exists_expr | in_expr;
+expr : operand | between_expr | logic_expr | exists_expr | in_expr | not_expr;
 
 operand : '(' expr ')' { $$ = $2; }
 | array_index | scalar_expr | unary_expr | binary_expr | case_expr | function_expr | extract_expr | cast_expr |
@@ -1199,6 +1199,11 @@ in_expr : operand IN '(' expr_list ')' { $$ = Expr::makeInOperator($1, $4); }
 | operand IN '(' select_no_paren ')' { $$ = Expr::makeInOperator($1, $4); }
 | operand NOT IN '(' select_no_paren ')' { $$ = Expr::makeOpUnary(kOpNot, Expr::makeInOperator($1, $5)); };
 
+// NOT applies to the whole predicate. For all other predicates, see unary_expr.
+not_expr : NOT between_expr { $$ = Expr::makeOpUnary(kOpNot, $2); }
+| NOT in_expr { $$ = Expr::makeOpUnary(kOpNot, $2); }
+| NOT not_expr { $$ = Expr::makeOpUnary(kOpNot, $2); };
+
 // CASE grammar based on: flex & bison by John Levine
 // https://www.safaribooksonline.com/library/view/flex-bison/9780596805418/ch04.html#id352665
 case_expr : CASE expr case_list END { $$ = Expr::makeCase($2, $3, nullptr); }
-- 
2.43.0


From 51cd51e49337ab4e48c3dbca86c6fd30223b7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 20/25] fix: print subqueries of IN and EXISTS, CASE branches,
 USING columns and the table of a star

The branches of a CASE with ELSE and the other parts were left out.
---
 src/util/sqlhelper.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util/sqlhelper.cpp b/src/util/sqlhelper.cpp
index a4b0f9d..151137c 100644
--- a/src/util/sqlhelper.cpp
+++ b/src/util/sqlhelper.cpp
@@ -51,6 +51,9 @@ void printTableRefInfo(TableRef* table, uintmax_t num_indent) {
       printTableRefInfo(table->join->right, num_indent + 2);
       inprint("Join Condition", num_indent + 1);
       printExpression(table->join->condition, num_indent + 2);
+      if (table->join->namedColumns) {
+        for (char* column : *table->join->namedColumns) inprint(column, num_indent + 2);
+      }
       break;
     case kTableCrossProduct:
       for (TableRef* tbl : *table->list) printTableRefInfo(tbl, num_indent);
@@ -82,10 +85,14 @@ void printOperatorExpression(Expr* expr, uintmax_t num_indent) {
   inprint(expr->opType, num_indent);
 
   printExpression(expr->expr, num_indent + 1);
+  if (expr->exprList) {
+    for (Expr* e : *expr->exprList) printExpression(e, num_indent + 1);
+  }
   if (expr->expr2) {
     printExpression(expr->expr2, num_indent + 1);
-  } else if (expr->exprList) {
-    for (Expr* e : *expr->exprList) printExpression(e, num_indent + 1);
+  }
+  if (expr->select) {
+    printSelectStatementInfo(expr->select, num_indent + 1);
   }
 }
 
@@ -94,6 +101,10 @@ void printExpression(Expr* expr, uintmax_t num_indent) {
   switch (expr->type) {
     case kExprStar:
       inprint("*", num_indent);
+      if (expr->table) {
+        inprint("Table:", num_indent + 1);
+        inprint(expr->table, num_indent + 2);
+      }
       break;
     case kExprColumnRef:
       inprint(expr->name, num_indent);
-- 
2.43.0


From 2025bc5f0d5bfb2563bdf936af1b0a8faddf06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 21/25] fix: accept only digits in the parts of a date literal

sscanf's %d also accepts signs and blanks, e.g., DATE '2000--1- 1'.
---
 src/parser/bison_parser.cpp | 246 ++++++++++++++++++------------------
 src/parser/bison_parser.y   |   8 +-
 2 files changed, 129 insertions(+), 125 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 9c3172c..9b7a7d8 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -904,14 +904,14 @@ static const yytype_int16 yyrline[] =
     1260,  1262,  1264,  1266,  1267,  1268,  1269,  1270,  1271,  1273,
     1274,  1275,  1276,  1277,  1278,  1280,  1280,  1282,  1284,  1289,
     1291,  1292,  1293,  1294,  1296,  1296,  1296,  1296,  1296,  1296,
-    1296,  1298,  1300,  1301,  1303,  1304,  1306,  1308,  1310,  1321,
-    1322,  1333,  1365,  1374,  1374,  1381,  1381,  1383,  1383,  1390,
-    1394,  1399,  1407,  1413,  1417,  1422,  1423,  1425,  1425,  1427,
-    1427,  1429,  1430,  1432,  1432,  1438,  1439,  1441,  1445,  1450,
-    1456,  1463,  1464,  1465,  1466,  1468,  1469,  1470,  1476,  1476,
-    1478,  1480,  1484,  1489,  1499,  1506,  1514,  1523,  1524,  1525,
-    1526,  1527,  1528,  1529,  1530,  1531,  1532,  1534,  1540,  1541,
-    1543,  1547
+    1296,  1298,  1300,  1301,  1303,  1304,  1306,  1308,  1310,  1323,
+    1324,  1335,  1367,  1376,  1376,  1383,  1383,  1385,  1385,  1392,
+    1396,  1401,  1409,  1415,  1419,  1424,  1425,  1427,  1427,  1429,
+    1429,  1431,  1432,  1434,  1434,  1440,  1441,  1443,  1447,  1452,
+    1458,  1465,  1466,  1467,  1468,  1470,  1471,  1472,  1478,  1478,
+    1480,  1482,  1486,  1491,  1501,  1508,  1516,  1525,  1526,  1527,
+    1528,  1529,  1530,  1531,  1532,  1533,  1534,  1536,  1542,  1543,
+    1545,  1549
 };
 #endif
 
@@ -6596,26 +6596,28 @@ yyreduce:
   case 298: /* date_literal: DATE STRING  */
 #line 1310 "bison_parser.y"
                            {
-  int day{0}, month{0}, year{0}, chars_parsed{0};
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf((yyvsp[0].sval), "%4d-%2d-%2d%n", &day, &month, &year, &chars_parsed) != 3 || (yyvsp[0].sval)[chars_parsed] != 0) {
+  int chars_parsed{0};
+  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Numbers
+  // are matched as digits because %d also accepts leading whitespace and signs.
+  sscanf((yyvsp[0].sval), "%*4[0-9]-%*2[0-9]-%*2[0-9]%n", &chars_parsed);
+  if (chars_parsed == 0 || (yyvsp[0].sval)[chars_parsed] != 0) {
     free((yyvsp[0].sval));
     yyerror(&yyloc, result, scanner, "Found incorrect date format. Expected format: YYYY-MM-DD");
     YYERROR;
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 6609 "bison_parser.cpp"
+#line 6611 "bison_parser.cpp"
     break;
 
   case 299: /* interval_literal: INTVAL duration_field  */
-#line 1321 "bison_parser.y"
+#line 1323 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 6615 "bison_parser.cpp"
+#line 6617 "bison_parser.cpp"
     break;
 
   case 300: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1322 "bison_parser.y"
+#line 1324 "bison_parser.y"
                                  {
   int duration{0}, chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
@@ -6627,11 +6629,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 6631 "bison_parser.cpp"
+#line 6633 "bison_parser.cpp"
     break;
 
   case 301: /* interval_literal: INTERVAL STRING  */
-#line 1333 "bison_parser.y"
+#line 1335 "bison_parser.y"
                   {
   int duration{0}, chars_parsed{0};
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
@@ -6663,61 +6665,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 6667 "bison_parser.cpp"
+#line 6669 "bison_parser.cpp"
     break;
 
   case 302: /* param_expr: '?'  */
-#line 1365 "bison_parser.y"
+#line 1367 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yylloc.param_list->size();
   yylloc.param_list->push_back((yyval.expr));
 }
-#line 6677 "bison_parser.cpp"
+#line 6679 "bison_parser.cpp"
     break;
 
   case 304: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1374 "bison_parser.y"
+#line 1376 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 6688 "bison_parser.cpp"
+#line 6690 "bison_parser.cpp"
     break;
 
   case 308: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1383 "bison_parser.y"
+#line 1385 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6699 "bison_parser.cpp"
+#line 6701 "bison_parser.cpp"
     break;
 
   case 309: /* table_ref_commalist: table_ref_atomic  */
-#line 1390 "bison_parser.y"
+#line 1392 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 6708 "bison_parser.cpp"
+#line 6710 "bison_parser.cpp"
     break;
 
   case 310: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1394 "bison_parser.y"
+#line 1396 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 6717 "bison_parser.cpp"
+#line 6719 "bison_parser.cpp"
     break;
 
   case 311: /* table_ref_name: table_name opt_table_alias  */
-#line 1399 "bison_parser.y"
+#line 1401 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -6725,215 +6727,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6729 "bison_parser.cpp"
+#line 6731 "bison_parser.cpp"
     break;
 
   case 312: /* table_ref_name_no_alias: table_name  */
-#line 1407 "bison_parser.y"
+#line 1409 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 6739 "bison_parser.cpp"
+#line 6741 "bison_parser.cpp"
     break;
 
   case 313: /* table_name: IDENTIFIER  */
-#line 1413 "bison_parser.y"
+#line 1415 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6748 "bison_parser.cpp"
+#line 6750 "bison_parser.cpp"
     break;
 
   case 314: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1417 "bison_parser.y"
+#line 1419 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6757 "bison_parser.cpp"
+#line 6759 "bison_parser.cpp"
     break;
 
   case 315: /* opt_index_name: IDENTIFIER  */
-#line 1422 "bison_parser.y"
+#line 1424 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 6763 "bison_parser.cpp"
+#line 6765 "bison_parser.cpp"
     break;
 
   case 316: /* opt_index_name: %empty  */
-#line 1423 "bison_parser.y"
+#line 1425 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 6769 "bison_parser.cpp"
+#line 6771 "bison_parser.cpp"
     break;
 
   case 318: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1425 "bison_parser.y"
+#line 1427 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 6775 "bison_parser.cpp"
+#line 6777 "bison_parser.cpp"
     break;
 
   case 320: /* opt_table_alias: %empty  */
-#line 1427 "bison_parser.y"
+#line 1429 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 6781 "bison_parser.cpp"
+#line 6783 "bison_parser.cpp"
     break;
 
   case 321: /* alias: AS IDENTIFIER  */
-#line 1429 "bison_parser.y"
+#line 1431 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6787 "bison_parser.cpp"
+#line 6789 "bison_parser.cpp"
     break;
 
   case 322: /* alias: IDENTIFIER  */
-#line 1430 "bison_parser.y"
+#line 1432 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6793 "bison_parser.cpp"
+#line 6795 "bison_parser.cpp"
     break;
 
   case 324: /* opt_alias: %empty  */
-#line 1432 "bison_parser.y"
+#line 1434 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 6799 "bison_parser.cpp"
+#line 6801 "bison_parser.cpp"
     break;
 
   case 325: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1438 "bison_parser.y"
+#line 1440 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 6805 "bison_parser.cpp"
+#line 6807 "bison_parser.cpp"
     break;
 
   case 326: /* opt_locking_clause: %empty  */
-#line 1439 "bison_parser.y"
+#line 1441 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 6811 "bison_parser.cpp"
+#line 6813 "bison_parser.cpp"
     break;
 
   case 327: /* opt_locking_clause_list: locking_clause  */
-#line 1441 "bison_parser.y"
+#line 1443 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 6820 "bison_parser.cpp"
+#line 6822 "bison_parser.cpp"
     break;
 
   case 328: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1445 "bison_parser.y"
+#line 1447 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 6829 "bison_parser.cpp"
+#line 6831 "bison_parser.cpp"
     break;
 
   case 329: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1450 "bison_parser.y"
+#line 1452 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 6840 "bison_parser.cpp"
+#line 6842 "bison_parser.cpp"
     break;
 
   case 330: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1456 "bison_parser.y"
+#line 1458 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 6851 "bison_parser.cpp"
+#line 6853 "bison_parser.cpp"
     break;
 
   case 331: /* row_lock_mode: UPDATE  */
-#line 1463 "bison_parser.y"
+#line 1465 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 6857 "bison_parser.cpp"
+#line 6859 "bison_parser.cpp"
     break;
 
   case 332: /* row_lock_mode: NO KEY UPDATE  */
-#line 1464 "bison_parser.y"
+#line 1466 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 6863 "bison_parser.cpp"
+#line 6865 "bison_parser.cpp"
     break;
 
   case 333: /* row_lock_mode: SHARE  */
-#line 1465 "bison_parser.y"
+#line 1467 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 6869 "bison_parser.cpp"
+#line 6871 "bison_parser.cpp"
     break;
 
   case 334: /* row_lock_mode: KEY SHARE  */
-#line 1466 "bison_parser.y"
+#line 1468 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 6875 "bison_parser.cpp"
+#line 6877 "bison_parser.cpp"
     break;
 
   case 335: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1468 "bison_parser.y"
+#line 1470 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 6881 "bison_parser.cpp"
+#line 6883 "bison_parser.cpp"
     break;
 
   case 336: /* opt_row_lock_policy: NOWAIT  */
-#line 1469 "bison_parser.y"
+#line 1471 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 6887 "bison_parser.cpp"
+#line 6889 "bison_parser.cpp"
     break;
 
   case 337: /* opt_row_lock_policy: %empty  */
-#line 1470 "bison_parser.y"
+#line 1472 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 6893 "bison_parser.cpp"
+#line 6895 "bison_parser.cpp"
     break;
 
   case 339: /* opt_with_clause: %empty  */
-#line 1476 "bison_parser.y"
+#line 1478 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 6899 "bison_parser.cpp"
+#line 6901 "bison_parser.cpp"
     break;
 
   case 340: /* with_clause: WITH with_description_list  */
-#line 1478 "bison_parser.y"
+#line 1480 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 6905 "bison_parser.cpp"
+#line 6907 "bison_parser.cpp"
     break;
 
   case 341: /* with_description_list: with_description  */
-#line 1480 "bison_parser.y"
+#line 1482 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 6914 "bison_parser.cpp"
+#line 6916 "bison_parser.cpp"
     break;
 
   case 342: /* with_description_list: with_description_list ',' with_description  */
-#line 1484 "bison_parser.y"
+#line 1486 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 6923 "bison_parser.cpp"
+#line 6925 "bison_parser.cpp"
     break;
 
   case 343: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1489 "bison_parser.y"
+#line 1491 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 6933 "bison_parser.cpp"
+#line 6935 "bison_parser.cpp"
     break;
 
   case 344: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1499 "bison_parser.y"
+#line 1501 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6941,11 +6943,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 6945 "bison_parser.cpp"
+#line 6947 "bison_parser.cpp"
     break;
 
   case 345: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1506 "bison_parser.y"
+#line 1508 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6954,11 +6956,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 6958 "bison_parser.cpp"
+#line 6960 "bison_parser.cpp"
     break;
 
   case 346: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1514 "bison_parser.y"
+#line 1516 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6967,101 +6969,101 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 6971 "bison_parser.cpp"
+#line 6973 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: INNER  */
-#line 1523 "bison_parser.y"
+#line 1525 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 6977 "bison_parser.cpp"
+#line 6979 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: LEFT OUTER  */
-#line 1524 "bison_parser.y"
+#line 1526 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 6983 "bison_parser.cpp"
+#line 6985 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: LEFT  */
-#line 1525 "bison_parser.y"
+#line 1527 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 6989 "bison_parser.cpp"
+#line 6991 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: RIGHT OUTER  */
-#line 1526 "bison_parser.y"
+#line 1528 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 6995 "bison_parser.cpp"
+#line 6997 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: RIGHT  */
-#line 1527 "bison_parser.y"
+#line 1529 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 7001 "bison_parser.cpp"
+#line 7003 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: FULL OUTER  */
-#line 1528 "bison_parser.y"
+#line 1530 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 7007 "bison_parser.cpp"
+#line 7009 "bison_parser.cpp"
     break;
 
   case 353: /* opt_join_type: OUTER  */
-#line 1529 "bison_parser.y"
+#line 1531 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 7013 "bison_parser.cpp"
+#line 7015 "bison_parser.cpp"
     break;
 
   case 354: /* opt_join_type: FULL  */
-#line 1530 "bison_parser.y"
+#line 1532 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 7019 "bison_parser.cpp"
+#line 7021 "bison_parser.cpp"
     break;
 
   case 355: /* opt_join_type: CROSS  */
-#line 1531 "bison_parser.y"
+#line 1533 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 7025 "bison_parser.cpp"
+#line 7027 "bison_parser.cpp"
     break;
 
   case 356: /* opt_join_type: %empty  */
-#line 1532 "bison_parser.y"
+#line 1534 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 7031 "bison_parser.cpp"
+#line 7033 "bison_parser.cpp"
     break;
 
   case 358: /* opt_semicolon: ';'  */
-#line 1540 "bison_parser.y"
+#line 1542 "bison_parser.y"
                     { (yyloc).total_column = (yylsp[0]).total_column; }
-#line 7037 "bison_parser.cpp"
+#line 7039 "bison_parser.cpp"
     break;
 
   case 359: /* opt_semicolon: %empty  */
-#line 1541 "bison_parser.y"
+#line 1543 "bison_parser.y"
                                                     { (yyloc).total_column = yylloc.total_column; }
-#line 7043 "bison_parser.cpp"
+#line 7045 "bison_parser.cpp"
     break;
 
   case 360: /* ident_commalist: IDENTIFIER  */
-#line 1543 "bison_parser.y"
+#line 1545 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 7052 "bison_parser.cpp"
+#line 7054 "bison_parser.cpp"
     break;
 
   case 361: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1547 "bison_parser.y"
+#line 1549 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 7061 "bison_parser.cpp"
+#line 7063 "bison_parser.cpp"
     break;
 
 
-#line 7065 "bison_parser.cpp"
+#line 7067 "bison_parser.cpp"
 
       default: break;
     }
@@ -7290,7 +7292,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1553 "bison_parser.y"
+#line 1555 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index bd0809f..ef1f8dd 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -1308,9 +1308,11 @@ int_literal : INTVAL { $$ = Expr::makeLiteral($1); };
 null_literal : NULL { $$ = Expr::makeNullLiteral(); };
 
 date_literal : DATE STRING {
-  int day{0}, month{0}, year{0}, chars_parsed{0};
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf($2, "%4d-%2d-%2d%n", &day, &month, &year, &chars_parsed) != 3 || $2[chars_parsed] != 0) {
+  int chars_parsed{0};
+  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Numbers
+  // are matched as digits because %d also accepts leading whitespace and signs.
+  sscanf($2, "%*4[0-9]-%*2[0-9]-%*2[0-9]%n", &chars_parsed);
+  if (chars_parsed == 0 || $2[chars_parsed] != 0) {
     free($2);
     yyerror(&yyloc, result, scanner, "Found incorrect date format. Expected format: YYYY-MM-DD");
     YYERROR;
-- 
2.43.0


From 633cb1d9b768c362e79b66f8ff73312ce6ebaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 22/25] fix: keep the value of long interval literals

INTERVAL '99999999999' DAY overflowed an int.
---
 src/parser/bison_parser.cpp | 1913 ++++++++++++++++++-----------------
 src/parser/bison_parser.h   |    4 +-
 src/parser/bison_parser.y   |   17 +-
 3 files changed, 974 insertions(+), 960 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 9b7a7d8..93f8fe2 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -93,7 +93,9 @@
 #include "bison_parser.h"
 #include "flex_lexer.h"
 
+#include <errno.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
   using namespace hsql;
@@ -105,7 +107,7 @@
   }
   // clang-format off
 
-#line 109 "bison_parser.cpp"
+#line 111 "bison_parser.cpp"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -875,43 +877,43 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   390,   390,   412,   417,   424,   428,   432,   433,   434,
-     436,   437,   438,   439,   440,   441,   442,   443,   444,   445,
-     451,   452,   454,   458,   463,   467,   477,   478,   479,   481,
-     481,   487,   493,   495,   499,   511,   517,   534,   549,   551,
-     552,   553,   555,   569,   573,   583,   587,   611,   619,   632,
-     639,   654,   674,   675,   680,   691,   706,   718,   725,   733,
-     742,   743,   745,   749,   754,   755,   757,   765,   766,   767,
-     768,   769,   770,   771,   775,   776,   777,   778,   779,   780,
-     781,   782,   783,   784,   785,   787,   788,   790,   791,   792,
-     794,   795,   797,   801,   805,   810,   818,   819,   820,   821,
-     823,   824,   825,   827,   835,   841,   847,   853,   859,   860,
-     867,   873,   875,   885,   892,   903,   910,   918,   919,   926,
-     933,   937,   942,   952,   956,   960,   972,   972,   974,   975,
-     984,   985,   987,  1001,  1013,  1018,  1022,  1026,  1031,  1032,
-    1034,  1044,  1045,  1047,  1049,  1050,  1052,  1054,  1055,  1057,
-    1062,  1064,  1065,  1067,  1068,  1070,  1074,  1079,  1081,  1082,
-    1083,  1085,  1086,  1108,  1109,  1111,  1112,  1113,  1114,  1115,
-    1116,  1121,  1125,  1131,  1132,  1134,  1138,  1143,  1143,  1147,
-    1155,  1156,  1158,  1167,  1167,  1167,  1167,  1167,  1167,  1169,
-    1170,  1170,  1170,  1170,  1170,  1170,  1170,  1170,  1171,  1171,
-    1175,  1175,  1177,  1178,  1179,  1180,  1181,  1183,  1183,  1184,
-    1185,  1186,  1187,  1188,  1189,  1190,  1191,  1192,  1194,  1195,
-    1197,  1198,  1199,  1200,  1203,  1204,  1205,  1209,  1210,  1211,
-    1212,  1214,  1215,  1217,  1218,  1220,  1221,  1222,  1223,  1224,
-    1225,  1226,  1230,  1231,  1232,  1233,  1237,  1238,  1240,  1241,
-    1246,  1247,  1248,  1252,  1253,  1254,  1256,  1257,  1258,  1259,
-    1260,  1262,  1264,  1266,  1267,  1268,  1269,  1270,  1271,  1273,
-    1274,  1275,  1276,  1277,  1278,  1280,  1280,  1282,  1284,  1289,
-    1291,  1292,  1293,  1294,  1296,  1296,  1296,  1296,  1296,  1296,
-    1296,  1298,  1300,  1301,  1303,  1304,  1306,  1308,  1310,  1323,
-    1324,  1335,  1367,  1376,  1376,  1383,  1383,  1385,  1385,  1392,
-    1396,  1401,  1409,  1415,  1419,  1424,  1425,  1427,  1427,  1429,
-    1429,  1431,  1432,  1434,  1434,  1440,  1441,  1443,  1447,  1452,
-    1458,  1465,  1466,  1467,  1468,  1470,  1471,  1472,  1478,  1478,
-    1480,  1482,  1486,  1491,  1501,  1508,  1516,  1525,  1526,  1527,
-    1528,  1529,  1530,  1531,  1532,  1533,  1534,  1536,  1542,  1543,
-    1545,  1549
+       0,   392,   392,   414,   419,   426,   430,   434,   435,   436,
+     438,   439,   440,   441,   442,   443,   444,   445,   446,   447,
+     453,   454,   456,   460,   465,   469,   479,   480,   481,   483,
+     483,   489,   495,   497,   501,   513,   519,   536,   551,   553,
+     554,   555,   557,   571,   575,   585,   589,   613,   621,   634,
+     641,   656,   676,   677,   682,   693,   708,   720,   727,   735,
+     744,   745,   747,   751,   756,   757,   759,   767,   768,   769,
+     770,   771,   772,   773,   777,   778,   779,   780,   781,   782,
+     783,   784,   785,   786,   787,   789,   790,   792,   793,   794,
+     796,   797,   799,   803,   807,   812,   820,   821,   822,   823,
+     825,   826,   827,   829,   837,   843,   849,   855,   861,   862,
+     869,   875,   877,   887,   894,   905,   912,   920,   921,   928,
+     935,   939,   944,   954,   958,   962,   974,   974,   976,   977,
+     986,   987,   989,  1003,  1015,  1020,  1024,  1028,  1033,  1034,
+    1036,  1046,  1047,  1049,  1051,  1052,  1054,  1056,  1057,  1059,
+    1064,  1066,  1067,  1069,  1070,  1072,  1076,  1081,  1083,  1084,
+    1085,  1087,  1088,  1110,  1111,  1113,  1114,  1115,  1116,  1117,
+    1118,  1123,  1127,  1133,  1134,  1136,  1140,  1145,  1145,  1149,
+    1157,  1158,  1160,  1169,  1169,  1169,  1169,  1169,  1169,  1171,
+    1172,  1172,  1172,  1172,  1172,  1172,  1172,  1172,  1173,  1173,
+    1177,  1177,  1179,  1180,  1181,  1182,  1183,  1185,  1185,  1186,
+    1187,  1188,  1189,  1190,  1191,  1192,  1193,  1194,  1196,  1197,
+    1199,  1200,  1201,  1202,  1205,  1206,  1207,  1211,  1212,  1213,
+    1214,  1216,  1217,  1219,  1220,  1222,  1223,  1224,  1225,  1226,
+    1227,  1228,  1232,  1233,  1234,  1235,  1239,  1240,  1242,  1243,
+    1248,  1249,  1250,  1254,  1255,  1256,  1258,  1259,  1260,  1261,
+    1262,  1264,  1266,  1268,  1269,  1270,  1271,  1272,  1273,  1275,
+    1276,  1277,  1278,  1279,  1280,  1282,  1282,  1284,  1286,  1291,
+    1293,  1294,  1295,  1296,  1298,  1298,  1298,  1298,  1298,  1298,
+    1298,  1300,  1302,  1303,  1305,  1306,  1308,  1310,  1312,  1325,
+    1326,  1339,  1374,  1383,  1383,  1390,  1390,  1392,  1392,  1399,
+    1403,  1408,  1416,  1422,  1426,  1431,  1432,  1434,  1434,  1436,
+    1436,  1438,  1439,  1441,  1441,  1447,  1448,  1450,  1454,  1459,
+    1465,  1472,  1473,  1474,  1475,  1477,  1478,  1479,  1485,  1485,
+    1487,  1489,  1493,  1498,  1508,  1515,  1523,  1532,  1533,  1534,
+    1535,  1536,  1537,  1538,  1539,  1540,  1541,  1543,  1549,  1550,
+    1552,  1556
 };
 #endif
 
@@ -3247,31 +3249,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 197 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3253 "bison_parser.cpp"
+#line 3255 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 197 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3259 "bison_parser.cpp"
+#line 3261 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3265 "bison_parser.cpp"
+#line 3267 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3271 "bison_parser.cpp"
+#line 3273 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -3280,23 +3282,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 3284 "bison_parser.cpp"
+#line 3286 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 3290 "bison_parser.cpp"
+#line 3292 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 3296 "bison_parser.cpp"
+#line 3298 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3305,11 +3307,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3309 "bison_parser.cpp"
+#line 3311 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3318,104 +3320,104 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3322 "bison_parser.cpp"
+#line 3324 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3328 "bison_parser.cpp"
+#line 3330 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 3334 "bison_parser.cpp"
+#line 3336 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 3340 "bison_parser.cpp"
+#line 3342 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 197 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3346 "bison_parser.cpp"
+#line 3348 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 3352 "bison_parser.cpp"
+#line 3354 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 3358 "bison_parser.cpp"
+#line 3360 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3364 "bison_parser.cpp"
+#line 3366 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 197 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3370 "bison_parser.cpp"
+#line 3372 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 3376 "bison_parser.cpp"
+#line 3378 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 3382 "bison_parser.cpp"
+#line 3384 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 250 "bison_parser.y"
+#line 252 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 3391 "bison_parser.cpp"
+#line 3393 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 3397 "bison_parser.cpp"
+#line 3399 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 3403 "bison_parser.cpp"
+#line 3405 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 3409 "bison_parser.cpp"
+#line 3411 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3415 "bison_parser.cpp"
+#line 3417 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -3424,41 +3426,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 3428 "bison_parser.cpp"
+#line 3430 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 3434 "bison_parser.cpp"
+#line 3436 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 3440 "bison_parser.cpp"
+#line 3442 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3446 "bison_parser.cpp"
+#line 3448 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3452 "bison_parser.cpp"
+#line 3454 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 3458 "bison_parser.cpp"
+#line 3460 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 242 "bison_parser.y"
+#line 244 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3467,11 +3469,11 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 3471 "bison_parser.cpp"
+#line 3473 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 242 "bison_parser.y"
+#line 244 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3480,77 +3482,77 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 3484 "bison_parser.cpp"
+#line 3486 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3490 "bison_parser.cpp"
+#line 3492 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 3496 "bison_parser.cpp"
+#line 3498 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 3502 "bison_parser.cpp"
+#line 3504 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 3508 "bison_parser.cpp"
+#line 3510 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3514 "bison_parser.cpp"
+#line 3516 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 3520 "bison_parser.cpp"
+#line 3522 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 3526 "bison_parser.cpp"
+#line 3528 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 3532 "bison_parser.cpp"
+#line 3534 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 3538 "bison_parser.cpp"
+#line 3540 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 3544 "bison_parser.cpp"
+#line 3546 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 3550 "bison_parser.cpp"
+#line 3552 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 189 "bison_parser.y"
+#line 191 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -3559,17 +3561,17 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3563 "bison_parser.cpp"
+#line 3565 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 3569 "bison_parser.cpp"
+#line 3571 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 211 "bison_parser.y"
+#line 213 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).update_vec))) {
     free(ptr->column);
@@ -3578,81 +3580,81 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 3582 "bison_parser.cpp"
+#line 3584 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 206 "bison_parser.y"
+#line 208 "bison_parser.y"
             {
   free(((*yyvaluep).update_t)->column);
   delete ((*yyvaluep).update_t)->value;
   delete (((*yyvaluep).update_t));
 }
-#line 3592 "bison_parser.cpp"
+#line 3594 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3598 "bison_parser.cpp"
+#line 3600 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3604 "bison_parser.cpp"
+#line 3606 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3610 "bison_parser.cpp"
+#line 3612 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3616 "bison_parser.cpp"
+#line 3618 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3622 "bison_parser.cpp"
+#line 3624 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 3628 "bison_parser.cpp"
+#line 3630 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 3634 "bison_parser.cpp"
+#line 3636 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3640 "bison_parser.cpp"
+#line 3642 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3646 "bison_parser.cpp"
+#line 3648 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3652 "bison_parser.cpp"
+#line 3654 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3661,41 +3663,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3665 "bison_parser.cpp"
+#line 3667 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3671 "bison_parser.cpp"
+#line 3673 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3677 "bison_parser.cpp"
+#line 3679 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3683 "bison_parser.cpp"
+#line 3685 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 3689 "bison_parser.cpp"
+#line 3691 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3695 "bison_parser.cpp"
+#line 3697 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3704,11 +3706,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 3708 "bison_parser.cpp"
+#line 3710 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3717,41 +3719,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 3721 "bison_parser.cpp"
+#line 3723 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 3727 "bison_parser.cpp"
+#line 3729 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3733 "bison_parser.cpp"
+#line 3735 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3739 "bison_parser.cpp"
+#line 3741 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 3745 "bison_parser.cpp"
+#line 3747 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 3751 "bison_parser.cpp"
+#line 3753 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3760,11 +3762,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3764 "bison_parser.cpp"
+#line 3766 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3773,11 +3775,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3777 "bison_parser.cpp"
+#line 3779 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3786,113 +3788,113 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3790 "bison_parser.cpp"
+#line 3792 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3796 "bison_parser.cpp"
+#line 3798 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3802 "bison_parser.cpp"
+#line 3804 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3808 "bison_parser.cpp"
+#line 3810 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3814 "bison_parser.cpp"
+#line 3816 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3820 "bison_parser.cpp"
+#line 3822 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3826 "bison_parser.cpp"
+#line 3828 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3832 "bison_parser.cpp"
+#line 3834 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3838 "bison_parser.cpp"
+#line 3840 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3844 "bison_parser.cpp"
+#line 3846 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3850 "bison_parser.cpp"
+#line 3852 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_not_expr: /* not_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3856 "bison_parser.cpp"
+#line 3858 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3862 "bison_parser.cpp"
+#line 3864 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3868 "bison_parser.cpp"
+#line 3870 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3874 "bison_parser.cpp"
+#line 3876 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3880 "bison_parser.cpp"
+#line 3882 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3886 "bison_parser.cpp"
+#line 3888 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 3892 "bison_parser.cpp"
+#line 3894 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3901,155 +3903,155 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3905 "bison_parser.cpp"
+#line 3907 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 3911 "bison_parser.cpp"
+#line 3913 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3917 "bison_parser.cpp"
+#line 3919 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 3923 "bison_parser.cpp"
+#line 3925 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3929 "bison_parser.cpp"
+#line 3931 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3935 "bison_parser.cpp"
+#line 3937 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3941 "bison_parser.cpp"
+#line 3943 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3947 "bison_parser.cpp"
+#line 3949 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 3953 "bison_parser.cpp"
+#line 3955 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3959 "bison_parser.cpp"
+#line 3961 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3965 "bison_parser.cpp"
+#line 3967 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3971 "bison_parser.cpp"
+#line 3973 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3977 "bison_parser.cpp"
+#line 3979 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3983 "bison_parser.cpp"
+#line 3985 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3989 "bison_parser.cpp"
+#line 3991 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3995 "bison_parser.cpp"
+#line 3997 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4001 "bison_parser.cpp"
+#line 4003 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4007 "bison_parser.cpp"
+#line 4009 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4013 "bison_parser.cpp"
+#line 4015 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4019 "bison_parser.cpp"
+#line 4021 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4025 "bison_parser.cpp"
+#line 4027 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4031 "bison_parser.cpp"
+#line 4033 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4037 "bison_parser.cpp"
+#line 4039 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4043 "bison_parser.cpp"
+#line 4045 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4049 "bison_parser.cpp"
+#line 4051 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -4058,62 +4060,62 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 4062 "bison_parser.cpp"
+#line 4064 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4068 "bison_parser.cpp"
+#line 4070 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4074 "bison_parser.cpp"
+#line 4076 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 185 "bison_parser.y"
+#line 187 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 4083 "bison_parser.cpp"
+#line 4085 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 197 "bison_parser.y"
+#line 199 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 4089 "bison_parser.cpp"
+#line 4091 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4095 "bison_parser.cpp"
+#line 4097 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4101 "bison_parser.cpp"
+#line 4103 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4107 "bison_parser.cpp"
+#line 4109 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4113 "bison_parser.cpp"
+#line 4115 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 228 "bison_parser.y"
+#line 230 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4128,11 +4130,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 4132 "bison_parser.cpp"
+#line 4134 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 228 "bison_parser.y"
+#line 230 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4147,11 +4149,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 4151 "bison_parser.cpp"
+#line 4153 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 219 "bison_parser.y"
+#line 221 "bison_parser.y"
             {
   if (((*yyvaluep).locking_t)->tables) {
     for (auto ptr : *(((*yyvaluep).locking_t)->tables)) {
@@ -4161,23 +4163,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_t));
 }
-#line 4165 "bison_parser.cpp"
+#line 4167 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 4171 "bison_parser.cpp"
+#line 4173 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 4177 "bison_parser.cpp"
+#line 4179 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4186,11 +4188,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4190 "bison_parser.cpp"
+#line 4192 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4199,11 +4201,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4203 "bison_parser.cpp"
+#line 4205 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 198 "bison_parser.y"
+#line 200 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4212,35 +4214,35 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4216 "bison_parser.cpp"
+#line 4218 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 4222 "bison_parser.cpp"
+#line 4224 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4228 "bison_parser.cpp"
+#line 4230 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 184 "bison_parser.y"
+#line 186 "bison_parser.y"
             { }
-#line 4234 "bison_parser.cpp"
+#line 4236 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 254 "bison_parser.y"
+#line 256 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4240 "bison_parser.cpp"
+#line 4242 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 189 "bison_parser.y"
+#line 191 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -4249,7 +4251,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 4253 "bison_parser.cpp"
+#line 4255 "bison_parser.cpp"
         break;
 
       default:
@@ -4346,7 +4348,7 @@ YYLTYPE yylloc = yyloc_default;
 
 
 /* User initialization code.  */
-#line 84 "bison_parser.y"
+#line 86 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -4357,7 +4359,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.param_list = std::make_shared<std::vector<void*>>();
 }
 
-#line 4361 "bison_parser.cpp"
+#line 4363 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -4568,7 +4570,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 390 "bison_parser.y"
+#line 392 "bison_parser.y"
                                      {
   (yyvsp[-1].stmt_vec)->back()->stringLength = (yylsp[0]).total_column - (yylsp[-1]).total_column;
 
@@ -4588,235 +4590,235 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 4592 "bison_parser.cpp"
+#line 4594 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 412 "bison_parser.y"
+#line 414 "bison_parser.y"
                            {
   (yyloc).total_column = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 4602 "bison_parser.cpp"
+#line 4604 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 417 "bison_parser.y"
+#line 419 "bison_parser.y"
                                {
   (yyvsp[-2].stmt_vec)->back()->stringLength = (yylsp[-1]).total_column - (yylsp[-2]).total_column;
   (yyloc).total_column = (yylsp[-1]).total_column;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 4613 "bison_parser.cpp"
+#line 4615 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 424 "bison_parser.y"
+#line 426 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4622 "bison_parser.cpp"
+#line 4624 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 428 "bison_parser.y"
+#line 430 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4631 "bison_parser.cpp"
+#line 4633 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 432 "bison_parser.y"
+#line 434 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 4637 "bison_parser.cpp"
+#line 4639 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 433 "bison_parser.y"
+#line 435 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 4643 "bison_parser.cpp"
+#line 4645 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 434 "bison_parser.y"
+#line 436 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 4649 "bison_parser.cpp"
+#line 4651 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 436 "bison_parser.y"
+#line 438 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 4655 "bison_parser.cpp"
+#line 4657 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 437 "bison_parser.y"
+#line 439 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 4661 "bison_parser.cpp"
+#line 4663 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 438 "bison_parser.y"
+#line 440 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 4667 "bison_parser.cpp"
+#line 4669 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 439 "bison_parser.y"
+#line 441 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4673 "bison_parser.cpp"
+#line 4675 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 440 "bison_parser.y"
+#line 442 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4679 "bison_parser.cpp"
+#line 4681 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 441 "bison_parser.y"
+#line 443 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 4685 "bison_parser.cpp"
+#line 4687 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 442 "bison_parser.y"
+#line 444 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 4691 "bison_parser.cpp"
+#line 4693 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 443 "bison_parser.y"
+#line 445 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 4697 "bison_parser.cpp"
+#line 4699 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 444 "bison_parser.y"
+#line 446 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 4703 "bison_parser.cpp"
+#line 4705 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 445 "bison_parser.y"
+#line 447 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 4709 "bison_parser.cpp"
+#line 4711 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 451 "bison_parser.y"
+#line 453 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 4715 "bison_parser.cpp"
+#line 4717 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 452 "bison_parser.y"
+#line 454 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4721 "bison_parser.cpp"
+#line 4723 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 454 "bison_parser.y"
+#line 456 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4730 "bison_parser.cpp"
+#line 4732 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 458 "bison_parser.y"
+#line 460 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4739 "bison_parser.cpp"
+#line 4741 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 463 "bison_parser.y"
+#line 465 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 4748 "bison_parser.cpp"
+#line 4750 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 467 "bison_parser.y"
+#line 469 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 4758 "bison_parser.cpp"
+#line 4760 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 477 "bison_parser.y"
+#line 479 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 4764 "bison_parser.cpp"
+#line 4766 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 478 "bison_parser.y"
+#line 480 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 4770 "bison_parser.cpp"
+#line 4772 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 479 "bison_parser.y"
+#line 481 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 4776 "bison_parser.cpp"
+#line 4778 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 487 "bison_parser.y"
+#line 489 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 4786 "bison_parser.cpp"
+#line 4788 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 495 "bison_parser.y"
+#line 497 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 4795 "bison_parser.cpp"
+#line 4797 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 499 "bison_parser.y"
+#line 501 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 4805 "bison_parser.cpp"
+#line 4807 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 511 "bison_parser.y"
+#line 513 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4816 "bison_parser.cpp"
+#line 4818 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 517 "bison_parser.y"
+#line 519 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -4833,11 +4835,11 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 4837 "bison_parser.cpp"
+#line 4839 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 534 "bison_parser.y"
+#line 536 "bison_parser.y"
                        {
   if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
     (yyval.import_type_t) = kImportCSV;
@@ -4852,35 +4854,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 4856 "bison_parser.cpp"
+#line 4858 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 549 "bison_parser.y"
+#line 551 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 4862 "bison_parser.cpp"
+#line 4864 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 551 "bison_parser.y"
+#line 553 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4868 "bison_parser.cpp"
+#line 4870 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 552 "bison_parser.y"
+#line 554 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4874 "bison_parser.cpp"
+#line 4876 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 553 "bison_parser.y"
+#line 555 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 4880 "bison_parser.cpp"
+#line 4882 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 555 "bison_parser.y"
+#line 557 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -4895,20 +4897,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4899 "bison_parser.cpp"
+#line 4901 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 569 "bison_parser.y"
+#line 571 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 4908 "bison_parser.cpp"
+#line 4910 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 573 "bison_parser.y"
+#line 575 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -4919,20 +4921,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4923 "bison_parser.cpp"
+#line 4925 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 583 "bison_parser.y"
+#line 585 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 4932 "bison_parser.cpp"
+#line 4934 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 587 "bison_parser.y"
+#line 589 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -4957,11 +4959,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 4961 "bison_parser.cpp"
+#line 4963 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 611 "bison_parser.y"
+#line 613 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -4969,11 +4971,11 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 4973 "bison_parser.cpp"
+#line 4975 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 619 "bison_parser.y"
+#line 621 "bison_parser.y"
                                {
   if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
@@ -4987,17 +4989,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 4991 "bison_parser.cpp"
+#line 4993 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 632 "bison_parser.y"
+#line 634 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 4997 "bison_parser.cpp"
+#line 4999 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 639 "bison_parser.y"
+#line 641 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -5013,11 +5015,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 5017 "bison_parser.cpp"
+#line 5019 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 654 "bison_parser.y"
+#line 656 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -5032,37 +5034,37 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 5036 "bison_parser.cpp"
+#line 5038 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 674 "bison_parser.y"
+#line 676 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 5042 "bison_parser.cpp"
+#line 5044 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 675 "bison_parser.y"
+#line 677 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5052 "bison_parser.cpp"
+#line 5054 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 680 "bison_parser.y"
+#line 682 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5062 "bison_parser.cpp"
+#line 5064 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 691 "bison_parser.y"
+#line 693 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
@@ -5078,11 +5080,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 5082 "bison_parser.cpp"
+#line 5084 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 706 "bison_parser.y"
+#line 708 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -5095,11 +5097,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 5099 "bison_parser.cpp"
+#line 5101 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 718 "bison_parser.y"
+#line 720 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -5107,11 +5109,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5111 "bison_parser.cpp"
+#line 5113 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 725 "bison_parser.y"
+#line 727 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -5120,11 +5122,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 5124 "bison_parser.cpp"
+#line 5126 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 733 "bison_parser.y"
+#line 735 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -5133,53 +5135,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5137 "bison_parser.cpp"
+#line 5139 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 742 "bison_parser.y"
+#line 744 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 5143 "bison_parser.cpp"
+#line 5145 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 743 "bison_parser.y"
+#line 745 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5149 "bison_parser.cpp"
+#line 5151 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 745 "bison_parser.y"
+#line 747 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 5158 "bison_parser.cpp"
+#line 5160 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 749 "bison_parser.y"
+#line 751 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 5167 "bison_parser.cpp"
+#line 5169 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 754 "bison_parser.y"
+#line 756 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 5173 "bison_parser.cpp"
+#line 5175 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 755 "bison_parser.y"
+#line 757 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 5179 "bison_parser.cpp"
+#line 5181 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 757 "bison_parser.y"
+#line 759 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -5187,192 +5189,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 5191 "bison_parser.cpp"
+#line 5193 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 765 "bison_parser.y"
+#line 767 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 5197 "bison_parser.cpp"
+#line 5199 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 766 "bison_parser.y"
+#line 768 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 5203 "bison_parser.cpp"
+#line 5205 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 767 "bison_parser.y"
+#line 769 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 5209 "bison_parser.cpp"
+#line 5211 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 768 "bison_parser.y"
+#line 770 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5215 "bison_parser.cpp"
+#line 5217 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 769 "bison_parser.y"
+#line 771 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 5221 "bison_parser.cpp"
+#line 5223 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 770 "bison_parser.y"
+#line 772 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5227 "bison_parser.cpp"
+#line 5229 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 771 "bison_parser.y"
+#line 773 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 5236 "bison_parser.cpp"
+#line 5238 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 775 "bison_parser.y"
+#line 777 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 5242 "bison_parser.cpp"
+#line 5244 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 776 "bison_parser.y"
+#line 778 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 5248 "bison_parser.cpp"
+#line 5250 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 777 "bison_parser.y"
+#line 779 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5254 "bison_parser.cpp"
+#line 5256 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 778 "bison_parser.y"
+#line 780 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5260 "bison_parser.cpp"
+#line 5262 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 779 "bison_parser.y"
+#line 781 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 5266 "bison_parser.cpp"
+#line 5268 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 780 "bison_parser.y"
+#line 782 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 5272 "bison_parser.cpp"
+#line 5274 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 781 "bison_parser.y"
+#line 783 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 5278 "bison_parser.cpp"
+#line 5280 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 782 "bison_parser.y"
+#line 784 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 5284 "bison_parser.cpp"
+#line 5286 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 783 "bison_parser.y"
+#line 785 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 5290 "bison_parser.cpp"
+#line 5292 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 784 "bison_parser.y"
+#line 786 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5296 "bison_parser.cpp"
+#line 5298 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 785 "bison_parser.y"
+#line 787 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5302 "bison_parser.cpp"
+#line 5304 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 787 "bison_parser.y"
+#line 789 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 5308 "bison_parser.cpp"
+#line 5310 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 788 "bison_parser.y"
+#line 790 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 5314 "bison_parser.cpp"
+#line 5316 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 790 "bison_parser.y"
+#line 792 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 5320 "bison_parser.cpp"
+#line 5322 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 791 "bison_parser.y"
+#line 793 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 5326 "bison_parser.cpp"
+#line 5328 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 792 "bison_parser.y"
+#line 794 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 5332 "bison_parser.cpp"
+#line 5334 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 794 "bison_parser.y"
+#line 796 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 5338 "bison_parser.cpp"
+#line 5340 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 795 "bison_parser.y"
+#line 797 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 5344 "bison_parser.cpp"
+#line 5346 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 797 "bison_parser.y"
+#line 799 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 5353 "bison_parser.cpp"
+#line 5355 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 801 "bison_parser.y"
+#line 803 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5362 "bison_parser.cpp"
+#line 5364 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 805 "bison_parser.y"
+#line 807 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 5372 "bison_parser.cpp"
+#line 5374 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 810 "bison_parser.y"
+#line 812 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -5380,159 +5382,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5384 "bison_parser.cpp"
+#line 5386 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 818 "bison_parser.y"
+#line 820 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 5390 "bison_parser.cpp"
+#line 5392 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 819 "bison_parser.y"
+#line 821 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 5396 "bison_parser.cpp"
+#line 5398 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 820 "bison_parser.y"
+#line 822 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 5402 "bison_parser.cpp"
+#line 5404 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 821 "bison_parser.y"
+#line 823 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 5408 "bison_parser.cpp"
+#line 5410 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 823 "bison_parser.y"
+#line 825 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 5414 "bison_parser.cpp"
+#line 5416 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 824 "bison_parser.y"
+#line 826 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 5420 "bison_parser.cpp"
+#line 5422 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 825 "bison_parser.y"
+#line 827 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 5426 "bison_parser.cpp"
+#line 5428 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 827 "bison_parser.y"
+#line 829 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 5432 "bison_parser.cpp"
+#line 5434 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 835 "bison_parser.y"
+#line 837 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5443 "bison_parser.cpp"
+#line 5445 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 841 "bison_parser.y"
+#line 843 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5454 "bison_parser.cpp"
+#line 5456 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 847 "bison_parser.y"
+#line 849 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 5464 "bison_parser.cpp"
+#line 5466 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 853 "bison_parser.y"
+#line 855 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 5474 "bison_parser.cpp"
+#line 5476 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 859 "bison_parser.y"
+#line 861 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 5480 "bison_parser.cpp"
+#line 5482 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 860 "bison_parser.y"
+#line 862 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5486 "bison_parser.cpp"
+#line 5488 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 867 "bison_parser.y"
+#line 869 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 5496 "bison_parser.cpp"
+#line 5498 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 873 "bison_parser.y"
+#line 875 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 5502 "bison_parser.cpp"
+#line 5504 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 875 "bison_parser.y"
+#line 877 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 5511 "bison_parser.cpp"
+#line 5513 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 885 "bison_parser.y"
+#line 887 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 5522 "bison_parser.cpp"
+#line 5524 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 892 "bison_parser.y"
+#line 894 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 5532 "bison_parser.cpp"
+#line 5534 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 903 "bison_parser.y"
+#line 905 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -5540,11 +5542,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 5544 "bison_parser.cpp"
+#line 5546 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 910 "bison_parser.y"
+#line 912 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -5552,80 +5554,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5556 "bison_parser.cpp"
+#line 5558 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 918 "bison_parser.y"
+#line 920 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 5562 "bison_parser.cpp"
+#line 5564 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 919 "bison_parser.y"
+#line 921 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 5568 "bison_parser.cpp"
+#line 5570 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 926 "bison_parser.y"
+#line 928 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 5579 "bison_parser.cpp"
+#line 5581 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 933 "bison_parser.y"
+#line 935 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 5588 "bison_parser.cpp"
+#line 5590 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 937 "bison_parser.y"
+#line 939 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 5597 "bison_parser.cpp"
+#line 5599 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 942 "bison_parser.y"
+#line 944 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 5607 "bison_parser.cpp"
+#line 5609 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 952 "bison_parser.y"
+#line 954 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5616 "bison_parser.cpp"
+#line 5618 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 956 "bison_parser.y"
+#line 958 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5625 "bison_parser.cpp"
+#line 5627 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 960 "bison_parser.y"
+#line 962 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5637,17 +5639,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 5641 "bison_parser.cpp"
+#line 5643 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 974 "bison_parser.y"
+#line 976 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 5647 "bison_parser.cpp"
+#line 5649 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 975 "bison_parser.y"
+#line 977 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5656,23 +5658,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 5660 "bison_parser.cpp"
+#line 5662 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 984 "bison_parser.y"
+#line 986 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5666 "bison_parser.cpp"
+#line 5668 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 985 "bison_parser.y"
+#line 987 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5672 "bison_parser.cpp"
+#line 5674 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 987 "bison_parser.y"
+#line 989 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -5687,11 +5689,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 5691 "bison_parser.cpp"
+#line 5693 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 1001 "bison_parser.y"
+#line 1003 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5703,59 +5705,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 5707 "bison_parser.cpp"
+#line 5709 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 1013 "bison_parser.y"
+#line 1015 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 5716 "bison_parser.cpp"
+#line 5718 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 1018 "bison_parser.y"
+#line 1020 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 5725 "bison_parser.cpp"
+#line 5727 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 1022 "bison_parser.y"
+#line 1024 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 5734 "bison_parser.cpp"
+#line 5736 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 1026 "bison_parser.y"
+#line 1028 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 5743 "bison_parser.cpp"
+#line 5745 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 1031 "bison_parser.y"
+#line 1033 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 5749 "bison_parser.cpp"
+#line 5751 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 1032 "bison_parser.y"
+#line 1034 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5755 "bison_parser.cpp"
+#line 5757 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 1034 "bison_parser.y"
+#line 1036 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -5765,141 +5767,141 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 5769 "bison_parser.cpp"
+#line 5771 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1044 "bison_parser.y"
+#line 1046 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 5775 "bison_parser.cpp"
+#line 5777 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1045 "bison_parser.y"
+#line 1047 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5781 "bison_parser.cpp"
+#line 5783 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1049 "bison_parser.y"
+#line 1051 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 5787 "bison_parser.cpp"
+#line 5789 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1050 "bison_parser.y"
+#line 1052 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 5793 "bison_parser.cpp"
+#line 5795 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1052 "bison_parser.y"
+#line 1054 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 5799 "bison_parser.cpp"
+#line 5801 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1054 "bison_parser.y"
+#line 1056 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 5805 "bison_parser.cpp"
+#line 5807 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1055 "bison_parser.y"
+#line 1057 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5811 "bison_parser.cpp"
+#line 5813 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1057 "bison_parser.y"
+#line 1059 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 5821 "bison_parser.cpp"
+#line 5823 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1062 "bison_parser.y"
+#line 1064 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 5827 "bison_parser.cpp"
+#line 5829 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1064 "bison_parser.y"
+#line 1066 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 5833 "bison_parser.cpp"
+#line 5835 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1065 "bison_parser.y"
+#line 1067 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5839 "bison_parser.cpp"
+#line 5841 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1067 "bison_parser.y"
+#line 1069 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 5845 "bison_parser.cpp"
+#line 5847 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1068 "bison_parser.y"
+#line 1070 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 5851 "bison_parser.cpp"
+#line 5853 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1070 "bison_parser.y"
+#line 1072 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 5860 "bison_parser.cpp"
+#line 5862 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1074 "bison_parser.y"
+#line 1076 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 5869 "bison_parser.cpp"
+#line 5871 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1079 "bison_parser.y"
+#line 1081 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 5875 "bison_parser.cpp"
+#line 5877 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1081 "bison_parser.y"
+#line 1083 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 5881 "bison_parser.cpp"
+#line 5883 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1082 "bison_parser.y"
+#line 1084 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 5887 "bison_parser.cpp"
+#line 5889 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1083 "bison_parser.y"
+#line 1085 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 5893 "bison_parser.cpp"
+#line 5895 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1085 "bison_parser.y"
+#line 1087 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 5899 "bison_parser.cpp"
+#line 5901 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1086 "bison_parser.y"
+#line 1088 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
   if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
@@ -5919,115 +5921,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 5923 "bison_parser.cpp"
+#line 5925 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1108 "bison_parser.y"
+#line 1110 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5929 "bison_parser.cpp"
+#line 5931 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1109 "bison_parser.y"
+#line 1111 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5935 "bison_parser.cpp"
+#line 5937 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1111 "bison_parser.y"
+#line 1113 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5941 "bison_parser.cpp"
+#line 5943 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1112 "bison_parser.y"
+#line 1114 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5947 "bison_parser.cpp"
+#line 5949 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1113 "bison_parser.y"
+#line 1115 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5953 "bison_parser.cpp"
+#line 5955 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1114 "bison_parser.y"
+#line 1116 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 5959 "bison_parser.cpp"
+#line 5961 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1115 "bison_parser.y"
+#line 1117 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5965 "bison_parser.cpp"
+#line 5967 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1116 "bison_parser.y"
+#line 1118 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5971 "bison_parser.cpp"
+#line 5973 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1121 "bison_parser.y"
+#line 1123 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 5980 "bison_parser.cpp"
+#line 5982 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1125 "bison_parser.y"
+#line 1127 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 5989 "bison_parser.cpp"
+#line 5991 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1131 "bison_parser.y"
+#line 1133 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5995 "bison_parser.cpp"
+#line 5997 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1132 "bison_parser.y"
+#line 1134 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 6001 "bison_parser.cpp"
+#line 6003 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1134 "bison_parser.y"
+#line 1136 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 6010 "bison_parser.cpp"
+#line 6012 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1138 "bison_parser.y"
+#line 1140 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 6019 "bison_parser.cpp"
+#line 6021 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1143 "bison_parser.y"
+#line 1145 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 6027 "bison_parser.cpp"
+#line 6029 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1147 "bison_parser.y"
+#line 1149 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -6036,23 +6038,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 6040 "bison_parser.cpp"
+#line 6042 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1155 "bison_parser.y"
+#line 1157 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6046 "bison_parser.cpp"
+#line 6048 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1156 "bison_parser.y"
+#line 1158 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6052 "bison_parser.cpp"
+#line 6054 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1158 "bison_parser.y"
+#line 1160 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -6061,540 +6063,540 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 6065 "bison_parser.cpp"
+#line 6067 "bison_parser.cpp"
     break;
 
   case 189: /* operand: '(' expr ')'  */
-#line 1169 "bison_parser.y"
+#line 1171 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 6071 "bison_parser.cpp"
+#line 6073 "bison_parser.cpp"
     break;
 
   case 199: /* operand: '(' select_no_paren ')'  */
-#line 1171 "bison_parser.y"
+#line 1173 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 6079 "bison_parser.cpp"
+#line 6081 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: '-' operand  */
-#line 1177 "bison_parser.y"
+#line 1179 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6085 "bison_parser.cpp"
+#line 6087 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: NOT operand  */
-#line 1178 "bison_parser.y"
+#line 1180 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6091 "bison_parser.cpp"
+#line 6093 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand ISNULL  */
-#line 1179 "bison_parser.y"
+#line 1181 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 6097 "bison_parser.cpp"
+#line 6099 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NULL  */
-#line 1180 "bison_parser.y"
+#line 1182 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 6103 "bison_parser.cpp"
+#line 6105 "bison_parser.cpp"
     break;
 
   case 206: /* unary_expr: operand IS NOT NULL  */
-#line 1181 "bison_parser.y"
+#line 1183 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 6109 "bison_parser.cpp"
+#line 6111 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '-' operand  */
-#line 1183 "bison_parser.y"
+#line 1185 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 6115 "bison_parser.cpp"
+#line 6117 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '+' operand  */
-#line 1184 "bison_parser.y"
+#line 1186 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 6121 "bison_parser.cpp"
+#line 6123 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '/' operand  */
-#line 1185 "bison_parser.y"
+#line 1187 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 6127 "bison_parser.cpp"
+#line 6129 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '*' operand  */
-#line 1186 "bison_parser.y"
+#line 1188 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 6133 "bison_parser.cpp"
+#line 6135 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '%' operand  */
-#line 1187 "bison_parser.y"
+#line 1189 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 6139 "bison_parser.cpp"
+#line 6141 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand '^' operand  */
-#line 1188 "bison_parser.y"
+#line 1190 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 6145 "bison_parser.cpp"
+#line 6147 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand LIKE operand  */
-#line 1189 "bison_parser.y"
+#line 1191 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 6151 "bison_parser.cpp"
+#line 6153 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand NOT LIKE operand  */
-#line 1190 "bison_parser.y"
+#line 1192 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 6157 "bison_parser.cpp"
+#line 6159 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand ILIKE operand  */
-#line 1191 "bison_parser.y"
+#line 1193 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 6163 "bison_parser.cpp"
+#line 6165 "bison_parser.cpp"
     break;
 
   case 217: /* binary_expr: operand CONCAT operand  */
-#line 1192 "bison_parser.y"
+#line 1194 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 6169 "bison_parser.cpp"
+#line 6171 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr AND expr  */
-#line 1194 "bison_parser.y"
+#line 1196 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 6175 "bison_parser.cpp"
+#line 6177 "bison_parser.cpp"
     break;
 
   case 219: /* logic_expr: expr OR expr  */
-#line 1195 "bison_parser.y"
+#line 1197 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 6181 "bison_parser.cpp"
+#line 6183 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1197 "bison_parser.y"
+#line 1199 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 6187 "bison_parser.cpp"
+#line 6189 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1198 "bison_parser.y"
+#line 1200 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 6193 "bison_parser.cpp"
+#line 6195 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1199 "bison_parser.y"
+#line 1201 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 6199 "bison_parser.cpp"
+#line 6201 "bison_parser.cpp"
     break;
 
   case 223: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1200 "bison_parser.y"
+#line 1202 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 6205 "bison_parser.cpp"
+#line 6207 "bison_parser.cpp"
     break;
 
   case 224: /* not_expr: NOT between_expr  */
-#line 1203 "bison_parser.y"
+#line 1205 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6211 "bison_parser.cpp"
+#line 6213 "bison_parser.cpp"
     break;
 
   case 225: /* not_expr: NOT in_expr  */
-#line 1204 "bison_parser.y"
+#line 1206 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6217 "bison_parser.cpp"
+#line 6219 "bison_parser.cpp"
     break;
 
   case 226: /* not_expr: NOT not_expr  */
-#line 1205 "bison_parser.y"
+#line 1207 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6223 "bison_parser.cpp"
+#line 6225 "bison_parser.cpp"
     break;
 
   case 227: /* case_expr: CASE expr case_list END  */
-#line 1209 "bison_parser.y"
+#line 1211 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 6229 "bison_parser.cpp"
+#line 6231 "bison_parser.cpp"
     break;
 
   case 228: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1210 "bison_parser.y"
+#line 1212 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6235 "bison_parser.cpp"
+#line 6237 "bison_parser.cpp"
     break;
 
   case 229: /* case_expr: CASE case_list END  */
-#line 1211 "bison_parser.y"
+#line 1213 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 6241 "bison_parser.cpp"
+#line 6243 "bison_parser.cpp"
     break;
 
   case 230: /* case_expr: CASE case_list ELSE expr END  */
-#line 1212 "bison_parser.y"
+#line 1214 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6247 "bison_parser.cpp"
+#line 6249 "bison_parser.cpp"
     break;
 
   case 231: /* case_list: WHEN expr THEN expr  */
-#line 1214 "bison_parser.y"
+#line 1216 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6253 "bison_parser.cpp"
+#line 6255 "bison_parser.cpp"
     break;
 
   case 232: /* case_list: case_list WHEN expr THEN expr  */
-#line 1215 "bison_parser.y"
+#line 1217 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6259 "bison_parser.cpp"
+#line 6261 "bison_parser.cpp"
     break;
 
   case 233: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1217 "bison_parser.y"
+#line 1219 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 6265 "bison_parser.cpp"
+#line 6267 "bison_parser.cpp"
     break;
 
   case 234: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1218 "bison_parser.y"
+#line 1220 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 6271 "bison_parser.cpp"
+#line 6273 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '=' operand  */
-#line 1220 "bison_parser.y"
+#line 1222 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6277 "bison_parser.cpp"
+#line 6279 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand EQUALS operand  */
-#line 1221 "bison_parser.y"
+#line 1223 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6283 "bison_parser.cpp"
+#line 6285 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand NOTEQUALS operand  */
-#line 1222 "bison_parser.y"
+#line 1224 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 6289 "bison_parser.cpp"
+#line 6291 "bison_parser.cpp"
     break;
 
   case 238: /* comp_expr: operand '<' operand  */
-#line 1223 "bison_parser.y"
+#line 1225 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 6295 "bison_parser.cpp"
+#line 6297 "bison_parser.cpp"
     break;
 
   case 239: /* comp_expr: operand '>' operand  */
-#line 1224 "bison_parser.y"
+#line 1226 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 6301 "bison_parser.cpp"
+#line 6303 "bison_parser.cpp"
     break;
 
   case 240: /* comp_expr: operand LESSEQ operand  */
-#line 1225 "bison_parser.y"
+#line 1227 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 6307 "bison_parser.cpp"
+#line 6309 "bison_parser.cpp"
     break;
 
   case 241: /* comp_expr: operand GREATEREQ operand  */
-#line 1226 "bison_parser.y"
+#line 1228 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 6313 "bison_parser.cpp"
+#line 6315 "bison_parser.cpp"
     break;
 
   case 242: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1230 "bison_parser.y"
+#line 1232 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6319 "bison_parser.cpp"
+#line 6321 "bison_parser.cpp"
     break;
 
   case 243: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1231 "bison_parser.y"
+#line 1233 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6325 "bison_parser.cpp"
+#line 6327 "bison_parser.cpp"
     break;
 
   case 244: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1232 "bison_parser.y"
+#line 1234 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6331 "bison_parser.cpp"
+#line 6333 "bison_parser.cpp"
     break;
 
   case 245: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1233 "bison_parser.y"
+#line 1235 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6337 "bison_parser.cpp"
+#line 6339 "bison_parser.cpp"
     break;
 
   case 246: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1237 "bison_parser.y"
+#line 1239 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 6343 "bison_parser.cpp"
+#line 6345 "bison_parser.cpp"
     break;
 
   case 247: /* opt_window: %empty  */
-#line 1238 "bison_parser.y"
+#line 1240 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 6349 "bison_parser.cpp"
+#line 6351 "bison_parser.cpp"
     break;
 
   case 248: /* opt_partition: PARTITION BY expr_list  */
-#line 1240 "bison_parser.y"
+#line 1242 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 6355 "bison_parser.cpp"
+#line 6357 "bison_parser.cpp"
     break;
 
   case 249: /* opt_partition: %empty  */
-#line 1241 "bison_parser.y"
+#line 1243 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 6361 "bison_parser.cpp"
+#line 6363 "bison_parser.cpp"
     break;
 
   case 250: /* opt_frame_clause: frame_type frame_bound  */
-#line 1246 "bison_parser.y"
+#line 1248 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 6367 "bison_parser.cpp"
+#line 6369 "bison_parser.cpp"
     break;
 
   case 251: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1247 "bison_parser.y"
+#line 1249 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 6373 "bison_parser.cpp"
+#line 6375 "bison_parser.cpp"
     break;
 
   case 252: /* opt_frame_clause: %empty  */
-#line 1248 "bison_parser.y"
+#line 1250 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 6381 "bison_parser.cpp"
+#line 6383 "bison_parser.cpp"
     break;
 
   case 253: /* frame_type: RANGE  */
-#line 1252 "bison_parser.y"
+#line 1254 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 6387 "bison_parser.cpp"
+#line 6389 "bison_parser.cpp"
     break;
 
   case 254: /* frame_type: ROWS  */
-#line 1253 "bison_parser.y"
+#line 1255 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 6393 "bison_parser.cpp"
+#line 6395 "bison_parser.cpp"
     break;
 
   case 255: /* frame_type: GROUPS  */
-#line 1254 "bison_parser.y"
+#line 1256 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 6399 "bison_parser.cpp"
+#line 6401 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1256 "bison_parser.y"
+#line 1258 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 6405 "bison_parser.cpp"
+#line 6407 "bison_parser.cpp"
     break;
 
   case 257: /* frame_bound: INTVAL PRECEDING  */
-#line 1257 "bison_parser.y"
+#line 1259 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 6411 "bison_parser.cpp"
+#line 6413 "bison_parser.cpp"
     break;
 
   case 258: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1258 "bison_parser.y"
+#line 1260 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 6417 "bison_parser.cpp"
+#line 6419 "bison_parser.cpp"
     break;
 
   case 259: /* frame_bound: INTVAL FOLLOWING  */
-#line 1259 "bison_parser.y"
+#line 1261 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 6423 "bison_parser.cpp"
+#line 6425 "bison_parser.cpp"
     break;
 
   case 260: /* frame_bound: CURRENT_ROW  */
-#line 1260 "bison_parser.y"
+#line 1262 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 6429 "bison_parser.cpp"
+#line 6431 "bison_parser.cpp"
     break;
 
   case 261: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1262 "bison_parser.y"
+#line 1264 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 6435 "bison_parser.cpp"
+#line 6437 "bison_parser.cpp"
     break;
 
   case 262: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1264 "bison_parser.y"
+#line 1266 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 6441 "bison_parser.cpp"
+#line 6443 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: SECOND  */
-#line 1266 "bison_parser.y"
+#line 1268 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6447 "bison_parser.cpp"
+#line 6449 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: MINUTE  */
-#line 1267 "bison_parser.y"
+#line 1269 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6453 "bison_parser.cpp"
+#line 6455 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field: HOUR  */
-#line 1268 "bison_parser.y"
+#line 1270 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 6459 "bison_parser.cpp"
+#line 6461 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field: DAY  */
-#line 1269 "bison_parser.y"
+#line 1271 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 6465 "bison_parser.cpp"
+#line 6467 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field: MONTH  */
-#line 1270 "bison_parser.y"
+#line 1272 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6471 "bison_parser.cpp"
+#line 6473 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field: YEAR  */
-#line 1271 "bison_parser.y"
+#line 1273 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 6477 "bison_parser.cpp"
+#line 6479 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: SECONDS  */
-#line 1273 "bison_parser.y"
+#line 1275 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6483 "bison_parser.cpp"
+#line 6485 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: MINUTES  */
-#line 1274 "bison_parser.y"
+#line 1276 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6489 "bison_parser.cpp"
+#line 6491 "bison_parser.cpp"
     break;
 
   case 271: /* datetime_field_plural: HOURS  */
-#line 1275 "bison_parser.y"
+#line 1277 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 6495 "bison_parser.cpp"
+#line 6497 "bison_parser.cpp"
     break;
 
   case 272: /* datetime_field_plural: DAYS  */
-#line 1276 "bison_parser.y"
+#line 1278 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 6501 "bison_parser.cpp"
+#line 6503 "bison_parser.cpp"
     break;
 
   case 273: /* datetime_field_plural: MONTHS  */
-#line 1277 "bison_parser.y"
+#line 1279 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6507 "bison_parser.cpp"
+#line 6509 "bison_parser.cpp"
     break;
 
   case 274: /* datetime_field_plural: YEARS  */
-#line 1278 "bison_parser.y"
+#line 1280 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 6513 "bison_parser.cpp"
+#line 6515 "bison_parser.cpp"
     break;
 
   case 277: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1282 "bison_parser.y"
+#line 1284 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 6519 "bison_parser.cpp"
+#line 6521 "bison_parser.cpp"
     break;
 
   case 278: /* array_index: operand '[' int_literal ']'  */
-#line 1284 "bison_parser.y"
+#line 1286 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 6528 "bison_parser.cpp"
+#line 6530 "bison_parser.cpp"
     break;
 
   case 279: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1289 "bison_parser.y"
+#line 1291 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 6534 "bison_parser.cpp"
+#line 6536 "bison_parser.cpp"
     break;
 
   case 280: /* column_name: IDENTIFIER  */
-#line 1291 "bison_parser.y"
+#line 1293 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 6540 "bison_parser.cpp"
+#line 6542 "bison_parser.cpp"
     break;
 
   case 281: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1292 "bison_parser.y"
+#line 1294 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 6546 "bison_parser.cpp"
+#line 6548 "bison_parser.cpp"
     break;
 
   case 282: /* column_name: '*'  */
-#line 1293 "bison_parser.y"
+#line 1295 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 6552 "bison_parser.cpp"
+#line 6554 "bison_parser.cpp"
     break;
 
   case 283: /* column_name: IDENTIFIER '.' '*'  */
-#line 1294 "bison_parser.y"
+#line 1296 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 6558 "bison_parser.cpp"
+#line 6560 "bison_parser.cpp"
     break;
 
   case 291: /* string_literal: STRING  */
-#line 1298 "bison_parser.y"
+#line 1300 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 6564 "bison_parser.cpp"
+#line 6566 "bison_parser.cpp"
     break;
 
   case 292: /* bool_literal: TRUE  */
-#line 1300 "bison_parser.y"
+#line 1302 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 6570 "bison_parser.cpp"
+#line 6572 "bison_parser.cpp"
     break;
 
   case 293: /* bool_literal: FALSE  */
-#line 1301 "bison_parser.y"
+#line 1303 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 6576 "bison_parser.cpp"
+#line 6578 "bison_parser.cpp"
     break;
 
   case 294: /* num_literal: FLOATVAL  */
-#line 1303 "bison_parser.y"
+#line 1305 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 6582 "bison_parser.cpp"
+#line 6584 "bison_parser.cpp"
     break;
 
   case 296: /* int_literal: INTVAL  */
-#line 1306 "bison_parser.y"
+#line 1308 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 6588 "bison_parser.cpp"
+#line 6590 "bison_parser.cpp"
     break;
 
   case 297: /* null_literal: NULL  */
-#line 1308 "bison_parser.y"
+#line 1310 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 6594 "bison_parser.cpp"
+#line 6596 "bison_parser.cpp"
     break;
 
   case 298: /* date_literal: DATE STRING  */
-#line 1310 "bison_parser.y"
+#line 1312 "bison_parser.y"
                            {
   int chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Numbers
@@ -6607,21 +6609,23 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 6611 "bison_parser.cpp"
+#line 6613 "bison_parser.cpp"
     break;
 
   case 299: /* interval_literal: INTVAL duration_field  */
-#line 1323 "bison_parser.y"
+#line 1325 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 6617 "bison_parser.cpp"
+#line 6619 "bison_parser.cpp"
     break;
 
   case 300: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1324 "bison_parser.y"
+#line 1326 "bison_parser.y"
                                  {
-  int duration{0}, chars_parsed{0};
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf((yyvsp[-1].sval), "%d%n", &duration, &chars_parsed) != 1 || (yyvsp[-1].sval)[chars_parsed] != 0) {
+  char* end{nullptr};
+  errno = 0;
+  const int64_t duration = strtoll((yyvsp[-1].sval), &end, 10);
+  // If the whole string is parsed, end points to the terminating null byte after the last character
+  if (end == (yyvsp[-1].sval) || errno == ERANGE || *end != 0) {
     free((yyvsp[-1].sval));
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER");
     YYERROR;
@@ -6629,17 +6633,20 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 6633 "bison_parser.cpp"
+#line 6637 "bison_parser.cpp"
     break;
 
   case 301: /* interval_literal: INTERVAL STRING  */
-#line 1335 "bison_parser.y"
+#line 1339 "bison_parser.y"
                   {
-  int duration{0}, chars_parsed{0};
+  int chars_parsed{0};
+  char* end{nullptr};
+  errno = 0;
+  const int64_t duration = strtoll((yyvsp[0].sval), &end, 10);
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
   char unit_string[8];
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf((yyvsp[0].sval), "%d %7s%n", &duration, unit_string, &chars_parsed) != 2 || (yyvsp[0].sval)[chars_parsed] != 0) {
+  if (end == (yyvsp[0].sval) || errno == ERANGE || sscanf(end, "%7s%n", unit_string, &chars_parsed) != 1 || end[chars_parsed] != 0) {
     free((yyvsp[0].sval));
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER INTERVAL_QUALIIFIER");
     YYERROR;
@@ -6665,61 +6672,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 6669 "bison_parser.cpp"
+#line 6676 "bison_parser.cpp"
     break;
 
   case 302: /* param_expr: '?'  */
-#line 1367 "bison_parser.y"
+#line 1374 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yylloc.param_list->size();
   yylloc.param_list->push_back((yyval.expr));
 }
-#line 6679 "bison_parser.cpp"
+#line 6686 "bison_parser.cpp"
     break;
 
   case 304: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1376 "bison_parser.y"
+#line 1383 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 6690 "bison_parser.cpp"
+#line 6697 "bison_parser.cpp"
     break;
 
   case 308: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1385 "bison_parser.y"
+#line 1392 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6701 "bison_parser.cpp"
+#line 6708 "bison_parser.cpp"
     break;
 
   case 309: /* table_ref_commalist: table_ref_atomic  */
-#line 1392 "bison_parser.y"
+#line 1399 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 6710 "bison_parser.cpp"
+#line 6717 "bison_parser.cpp"
     break;
 
   case 310: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1396 "bison_parser.y"
+#line 1403 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 6719 "bison_parser.cpp"
+#line 6726 "bison_parser.cpp"
     break;
 
   case 311: /* table_ref_name: table_name opt_table_alias  */
-#line 1401 "bison_parser.y"
+#line 1408 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -6727,215 +6734,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6731 "bison_parser.cpp"
+#line 6738 "bison_parser.cpp"
     break;
 
   case 312: /* table_ref_name_no_alias: table_name  */
-#line 1409 "bison_parser.y"
+#line 1416 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 6741 "bison_parser.cpp"
+#line 6748 "bison_parser.cpp"
     break;
 
   case 313: /* table_name: IDENTIFIER  */
-#line 1415 "bison_parser.y"
+#line 1422 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6750 "bison_parser.cpp"
+#line 6757 "bison_parser.cpp"
     break;
 
   case 314: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1419 "bison_parser.y"
+#line 1426 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6759 "bison_parser.cpp"
+#line 6766 "bison_parser.cpp"
     break;
 
   case 315: /* opt_index_name: IDENTIFIER  */
-#line 1424 "bison_parser.y"
+#line 1431 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 6765 "bison_parser.cpp"
+#line 6772 "bison_parser.cpp"
     break;
 
   case 316: /* opt_index_name: %empty  */
-#line 1425 "bison_parser.y"
+#line 1432 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 6771 "bison_parser.cpp"
+#line 6778 "bison_parser.cpp"
     break;
 
   case 318: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1427 "bison_parser.y"
+#line 1434 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 6777 "bison_parser.cpp"
+#line 6784 "bison_parser.cpp"
     break;
 
   case 320: /* opt_table_alias: %empty  */
-#line 1429 "bison_parser.y"
+#line 1436 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 6783 "bison_parser.cpp"
+#line 6790 "bison_parser.cpp"
     break;
 
   case 321: /* alias: AS IDENTIFIER  */
-#line 1431 "bison_parser.y"
+#line 1438 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6789 "bison_parser.cpp"
+#line 6796 "bison_parser.cpp"
     break;
 
   case 322: /* alias: IDENTIFIER  */
-#line 1432 "bison_parser.y"
+#line 1439 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6795 "bison_parser.cpp"
+#line 6802 "bison_parser.cpp"
     break;
 
   case 324: /* opt_alias: %empty  */
-#line 1434 "bison_parser.y"
+#line 1441 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 6801 "bison_parser.cpp"
+#line 6808 "bison_parser.cpp"
     break;
 
   case 325: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1440 "bison_parser.y"
+#line 1447 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 6807 "bison_parser.cpp"
+#line 6814 "bison_parser.cpp"
     break;
 
   case 326: /* opt_locking_clause: %empty  */
-#line 1441 "bison_parser.y"
+#line 1448 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 6813 "bison_parser.cpp"
+#line 6820 "bison_parser.cpp"
     break;
 
   case 327: /* opt_locking_clause_list: locking_clause  */
-#line 1443 "bison_parser.y"
+#line 1450 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 6822 "bison_parser.cpp"
+#line 6829 "bison_parser.cpp"
     break;
 
   case 328: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1447 "bison_parser.y"
+#line 1454 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 6831 "bison_parser.cpp"
+#line 6838 "bison_parser.cpp"
     break;
 
   case 329: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1452 "bison_parser.y"
+#line 1459 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 6842 "bison_parser.cpp"
+#line 6849 "bison_parser.cpp"
     break;
 
   case 330: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1458 "bison_parser.y"
+#line 1465 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 6853 "bison_parser.cpp"
+#line 6860 "bison_parser.cpp"
     break;
 
   case 331: /* row_lock_mode: UPDATE  */
-#line 1465 "bison_parser.y"
+#line 1472 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 6859 "bison_parser.cpp"
+#line 6866 "bison_parser.cpp"
     break;
 
   case 332: /* row_lock_mode: NO KEY UPDATE  */
-#line 1466 "bison_parser.y"
+#line 1473 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 6865 "bison_parser.cpp"
+#line 6872 "bison_parser.cpp"
     break;
 
   case 333: /* row_lock_mode: SHARE  */
-#line 1467 "bison_parser.y"
+#line 1474 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 6871 "bison_parser.cpp"
+#line 6878 "bison_parser.cpp"
     break;
 
   case 334: /* row_lock_mode: KEY SHARE  */
-#line 1468 "bison_parser.y"
+#line 1475 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 6877 "bison_parser.cpp"
+#line 6884 "bison_parser.cpp"
     break;
 
   case 335: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1470 "bison_parser.y"
+#line 1477 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 6883 "bison_parser.cpp"
+#line 6890 "bison_parser.cpp"
     break;
 
   case 336: /* opt_row_lock_policy: NOWAIT  */
-#line 1471 "bison_parser.y"
+#line 1478 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 6889 "bison_parser.cpp"
+#line 6896 "bison_parser.cpp"
     break;
 
   case 337: /* opt_row_lock_policy: %empty  */
-#line 1472 "bison_parser.y"
+#line 1479 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 6895 "bison_parser.cpp"
+#line 6902 "bison_parser.cpp"
     break;
 
   case 339: /* opt_with_clause: %empty  */
-#line 1478 "bison_parser.y"
+#line 1485 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 6901 "bison_parser.cpp"
+#line 6908 "bison_parser.cpp"
     break;
 
   case 340: /* with_clause: WITH with_description_list  */
-#line 1480 "bison_parser.y"
+#line 1487 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 6907 "bison_parser.cpp"
+#line 6914 "bison_parser.cpp"
     break;
 
   case 341: /* with_description_list: with_description  */
-#line 1482 "bison_parser.y"
+#line 1489 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 6916 "bison_parser.cpp"
+#line 6923 "bison_parser.cpp"
     break;
 
   case 342: /* with_description_list: with_description_list ',' with_description  */
-#line 1486 "bison_parser.y"
+#line 1493 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 6925 "bison_parser.cpp"
+#line 6932 "bison_parser.cpp"
     break;
 
   case 343: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1491 "bison_parser.y"
+#line 1498 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 6935 "bison_parser.cpp"
+#line 6942 "bison_parser.cpp"
     break;
 
   case 344: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1501 "bison_parser.y"
+#line 1508 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6943,11 +6950,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 6947 "bison_parser.cpp"
+#line 6954 "bison_parser.cpp"
     break;
 
   case 345: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1508 "bison_parser.y"
+#line 1515 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6956,11 +6963,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 6960 "bison_parser.cpp"
+#line 6967 "bison_parser.cpp"
     break;
 
   case 346: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1516 "bison_parser.y"
+#line 1523 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6969,101 +6976,101 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 6973 "bison_parser.cpp"
+#line 6980 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: INNER  */
-#line 1525 "bison_parser.y"
+#line 1532 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 6979 "bison_parser.cpp"
+#line 6986 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: LEFT OUTER  */
-#line 1526 "bison_parser.y"
+#line 1533 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 6985 "bison_parser.cpp"
+#line 6992 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: LEFT  */
-#line 1527 "bison_parser.y"
+#line 1534 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 6991 "bison_parser.cpp"
+#line 6998 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: RIGHT OUTER  */
-#line 1528 "bison_parser.y"
+#line 1535 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 6997 "bison_parser.cpp"
+#line 7004 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: RIGHT  */
-#line 1529 "bison_parser.y"
+#line 1536 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 7003 "bison_parser.cpp"
+#line 7010 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: FULL OUTER  */
-#line 1530 "bison_parser.y"
+#line 1537 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 7009 "bison_parser.cpp"
+#line 7016 "bison_parser.cpp"
     break;
 
   case 353: /* opt_join_type: OUTER  */
-#line 1531 "bison_parser.y"
+#line 1538 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 7015 "bison_parser.cpp"
+#line 7022 "bison_parser.cpp"
     break;
 
   case 354: /* opt_join_type: FULL  */
-#line 1532 "bison_parser.y"
+#line 1539 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 7021 "bison_parser.cpp"
+#line 7028 "bison_parser.cpp"
     break;
 
   case 355: /* opt_join_type: CROSS  */
-#line 1533 "bison_parser.y"
+#line 1540 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 7027 "bison_parser.cpp"
+#line 7034 "bison_parser.cpp"
     break;
 
   case 356: /* opt_join_type: %empty  */
-#line 1534 "bison_parser.y"
+#line 1541 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 7033 "bison_parser.cpp"
+#line 7040 "bison_parser.cpp"
     break;
 
   case 358: /* opt_semicolon: ';'  */
-#line 1542 "bison_parser.y"
+#line 1549 "bison_parser.y"
                     { (yyloc).total_column = (yylsp[0]).total_column; }
-#line 7039 "bison_parser.cpp"
+#line 7046 "bison_parser.cpp"
     break;
 
   case 359: /* opt_semicolon: %empty  */
-#line 1543 "bison_parser.y"
+#line 1550 "bison_parser.y"
                                                     { (yyloc).total_column = yylloc.total_column; }
-#line 7045 "bison_parser.cpp"
+#line 7052 "bison_parser.cpp"
     break;
 
   case 360: /* ident_commalist: IDENTIFIER  */
-#line 1545 "bison_parser.y"
+#line 1552 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 7054 "bison_parser.cpp"
+#line 7061 "bison_parser.cpp"
     break;
 
   case 361: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1549 "bison_parser.y"
+#line 1556 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 7063 "bison_parser.cpp"
+#line 7070 "bison_parser.cpp"
     break;
 
 
-#line 7067 "bison_parser.cpp"
+#line 7074 "bison_parser.cpp"
 
       default: break;
     }
@@ -7292,7 +7299,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1555 "bison_parser.y"
+#line 1562 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index 71167fd..ae59fa8 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -53,7 +53,7 @@
 extern int hsql_debug;
 #endif
 /* "%code requires" blocks.  */
-#line 39 "bison_parser.y"
+#line 41 "bison_parser.y"
 
 // %code requires block
 
@@ -273,7 +273,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 105 "bison_parser.y"
+#line 107 "bison_parser.y"
 
   // clang-format on
   bool bval;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index ef1f8dd..7641d29 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -17,7 +17,9 @@
 #include "bison_parser.h"
 #include "flex_lexer.h"
 
+#include <errno.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
   using namespace hsql;
@@ -1322,9 +1324,11 @@ date_literal : DATE STRING {
 
 interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2); }
 | INTERVAL STRING datetime_field {
-  int duration{0}, chars_parsed{0};
-  // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf($2, "%d%n", &duration, &chars_parsed) != 1 || $2[chars_parsed] != 0) {
+  char* end{nullptr};
+  errno = 0;
+  const int64_t duration = strtoll($2, &end, 10);
+  // If the whole string is parsed, end points to the terminating null byte after the last character
+  if (end == $2 || errno == ERANGE || *end != 0) {
     free($2);
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER");
     YYERROR;
@@ -1333,11 +1337,14 @@ interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2
   $$ = Expr::makeIntervalLiteral(duration, $3);
 }
 | INTERVAL STRING {
-  int duration{0}, chars_parsed{0};
+  int chars_parsed{0};
+  char* end{nullptr};
+  errno = 0;
+  const int64_t duration = strtoll($2, &end, 10);
   // 'seconds' and 'minutes' are the longest accepted interval qualifiers (7 chars) + null byte
   char unit_string[8];
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character
-  if (sscanf($2, "%d %7s%n", &duration, unit_string, &chars_parsed) != 2 || $2[chars_parsed] != 0) {
+  if (end == $2 || errno == ERANGE || sscanf(end, "%7s%n", unit_string, &chars_parsed) != 1 || end[chars_parsed] != 0) {
     free($2);
     yyerror(&yyloc, result, scanner, "Found incorrect interval format. Expected format: INTEGER INTERVAL_QUALIIFIER");
     YYERROR;
-- 
2.43.0


From fa086999f05a140b18d512d94f1bddbc75034dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 23/25] fix: compare file types, options and units
 independently of the process locale

strcasecmp("BINARY", "binary") fails in a Turkish 8 bit locale.
---
 src/parser/bison_parser.cpp | 1936 ++++++++++++++++++-----------------
 src/parser/bison_parser.h   |    4 +-
 src/parser/bison_parser.y   |   40 +-
 3 files changed, 1000 insertions(+), 980 deletions(-)

diff --git a/src/parser/bison_parser.cpp b/src/parser/bison_parser.cpp
index 93f8fe2..1653d18 100644
--- a/src/parser/bison_parser.cpp
+++ b/src/parser/bison_parser.cpp
@@ -100,6 +100,16 @@
 
   using namespace hsql;
 
+  // Compares ASCII texts. In contrast to strcasecmp, independent of the process locale.
+  static bool equalsIgnoreCase(const char* text, const char* other) {
+    const auto lower = [](char c) { return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c; };
+    while (*text && lower(*text) == lower(*other)) {
+      ++text;
+      ++other;
+    }
+    return lower(*text) == lower(*other);
+  }
+
   int yyerror(YYLTYPE * llocp, SQLParserResult * result, yyscan_t scanner, const char* msg) {
     result->setIsValid(false);
     result->setErrorDetails(strdup(msg), llocp->first_line, llocp->first_column);
@@ -107,7 +117,7 @@
   }
   // clang-format off
 
-#line 111 "bison_parser.cpp"
+#line 121 "bison_parser.cpp"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -877,43 +887,43 @@ static const yytype_uint8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   392,   392,   414,   419,   426,   430,   434,   435,   436,
-     438,   439,   440,   441,   442,   443,   444,   445,   446,   447,
-     453,   454,   456,   460,   465,   469,   479,   480,   481,   483,
-     483,   489,   495,   497,   501,   513,   519,   536,   551,   553,
-     554,   555,   557,   571,   575,   585,   589,   613,   621,   634,
-     641,   656,   676,   677,   682,   693,   708,   720,   727,   735,
-     744,   745,   747,   751,   756,   757,   759,   767,   768,   769,
-     770,   771,   772,   773,   777,   778,   779,   780,   781,   782,
-     783,   784,   785,   786,   787,   789,   790,   792,   793,   794,
-     796,   797,   799,   803,   807,   812,   820,   821,   822,   823,
-     825,   826,   827,   829,   837,   843,   849,   855,   861,   862,
-     869,   875,   877,   887,   894,   905,   912,   920,   921,   928,
-     935,   939,   944,   954,   958,   962,   974,   974,   976,   977,
-     986,   987,   989,  1003,  1015,  1020,  1024,  1028,  1033,  1034,
-    1036,  1046,  1047,  1049,  1051,  1052,  1054,  1056,  1057,  1059,
-    1064,  1066,  1067,  1069,  1070,  1072,  1076,  1081,  1083,  1084,
-    1085,  1087,  1088,  1110,  1111,  1113,  1114,  1115,  1116,  1117,
-    1118,  1123,  1127,  1133,  1134,  1136,  1140,  1145,  1145,  1149,
-    1157,  1158,  1160,  1169,  1169,  1169,  1169,  1169,  1169,  1171,
-    1172,  1172,  1172,  1172,  1172,  1172,  1172,  1172,  1173,  1173,
-    1177,  1177,  1179,  1180,  1181,  1182,  1183,  1185,  1185,  1186,
-    1187,  1188,  1189,  1190,  1191,  1192,  1193,  1194,  1196,  1197,
-    1199,  1200,  1201,  1202,  1205,  1206,  1207,  1211,  1212,  1213,
-    1214,  1216,  1217,  1219,  1220,  1222,  1223,  1224,  1225,  1226,
-    1227,  1228,  1232,  1233,  1234,  1235,  1239,  1240,  1242,  1243,
-    1248,  1249,  1250,  1254,  1255,  1256,  1258,  1259,  1260,  1261,
-    1262,  1264,  1266,  1268,  1269,  1270,  1271,  1272,  1273,  1275,
-    1276,  1277,  1278,  1279,  1280,  1282,  1282,  1284,  1286,  1291,
-    1293,  1294,  1295,  1296,  1298,  1298,  1298,  1298,  1298,  1298,
-    1298,  1300,  1302,  1303,  1305,  1306,  1308,  1310,  1312,  1325,
-    1326,  1339,  1374,  1383,  1383,  1390,  1390,  1392,  1392,  1399,
-    1403,  1408,  1416,  1422,  1426,  1431,  1432,  1434,  1434,  1436,
-    1436,  1438,  1439,  1441,  1441,  1447,  1448,  1450,  1454,  1459,
-    1465,  1472,  1473,  1474,  1475,  1477,  1478,  1479,  1485,  1485,
-    1487,  1489,  1493,  1498,  1508,  1515,  1523,  1532,  1533,  1534,
-    1535,  1536,  1537,  1538,  1539,  1540,  1541,  1543,  1549,  1550,
-    1552,  1556
+       0,   402,   402,   424,   429,   436,   440,   444,   445,   446,
+     448,   449,   450,   451,   452,   453,   454,   455,   456,   457,
+     463,   464,   466,   470,   475,   479,   489,   490,   491,   493,
+     493,   499,   505,   507,   511,   523,   529,   546,   561,   563,
+     564,   565,   567,   581,   585,   595,   599,   623,   631,   644,
+     651,   666,   686,   687,   692,   703,   718,   730,   737,   745,
+     754,   755,   757,   761,   766,   767,   769,   777,   778,   779,
+     780,   781,   782,   783,   787,   788,   789,   790,   791,   792,
+     793,   794,   795,   796,   797,   799,   800,   802,   803,   804,
+     806,   807,   809,   813,   817,   822,   830,   831,   832,   833,
+     835,   836,   837,   839,   847,   853,   859,   865,   871,   872,
+     879,   885,   887,   897,   904,   915,   922,   930,   931,   938,
+     945,   949,   954,   964,   968,   972,   984,   984,   986,   987,
+     996,   997,   999,  1013,  1025,  1030,  1034,  1038,  1043,  1044,
+    1046,  1056,  1057,  1059,  1061,  1062,  1064,  1066,  1067,  1069,
+    1074,  1076,  1077,  1079,  1080,  1082,  1086,  1091,  1093,  1094,
+    1095,  1097,  1098,  1120,  1121,  1123,  1124,  1125,  1126,  1127,
+    1128,  1133,  1137,  1143,  1144,  1146,  1150,  1155,  1155,  1159,
+    1167,  1168,  1170,  1179,  1179,  1179,  1179,  1179,  1179,  1181,
+    1182,  1182,  1182,  1182,  1182,  1182,  1182,  1182,  1183,  1183,
+    1187,  1187,  1189,  1190,  1191,  1192,  1193,  1195,  1195,  1196,
+    1197,  1198,  1199,  1200,  1201,  1202,  1203,  1204,  1206,  1207,
+    1209,  1210,  1211,  1212,  1215,  1216,  1217,  1221,  1222,  1223,
+    1224,  1226,  1227,  1229,  1230,  1232,  1233,  1234,  1235,  1236,
+    1237,  1238,  1242,  1243,  1244,  1245,  1249,  1250,  1252,  1253,
+    1258,  1259,  1260,  1264,  1265,  1266,  1268,  1269,  1270,  1271,
+    1272,  1274,  1276,  1278,  1279,  1280,  1281,  1282,  1283,  1285,
+    1286,  1287,  1288,  1289,  1290,  1292,  1292,  1294,  1296,  1301,
+    1303,  1304,  1305,  1306,  1308,  1308,  1308,  1308,  1308,  1308,
+    1308,  1310,  1312,  1313,  1315,  1316,  1318,  1320,  1322,  1335,
+    1336,  1349,  1384,  1393,  1393,  1400,  1400,  1402,  1402,  1409,
+    1413,  1418,  1426,  1432,  1436,  1441,  1442,  1444,  1444,  1446,
+    1446,  1448,  1449,  1451,  1451,  1457,  1458,  1460,  1464,  1469,
+    1475,  1482,  1483,  1484,  1485,  1487,  1488,  1489,  1495,  1495,
+    1497,  1499,  1503,  1508,  1518,  1525,  1533,  1542,  1543,  1544,
+    1545,  1546,  1547,  1548,  1549,  1550,  1551,  1553,  1559,  1560,
+    1562,  1566
 };
 #endif
 
@@ -3249,31 +3259,31 @@ yydestruct (const char *yymsg,
   switch (yykind)
     {
     case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
-#line 199 "bison_parser.y"
+#line 209 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3255 "bison_parser.cpp"
+#line 3265 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_STRING: /* STRING  */
-#line 199 "bison_parser.y"
+#line 209 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3261 "bison_parser.cpp"
+#line 3271 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_FLOATVAL: /* FLOATVAL  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3267 "bison_parser.cpp"
+#line 3277 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_INTVAL: /* INTVAL  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3273 "bison_parser.cpp"
+#line 3283 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement_list: /* statement_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).stmt_vec)) {
     for (auto ptr : *(((*yyvaluep).stmt_vec))) {
@@ -3282,23 +3292,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).stmt_vec));
 }
-#line 3286 "bison_parser.cpp"
+#line 3296 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_statement: /* statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 3292 "bison_parser.cpp"
+#line 3302 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_preparable_statement: /* preparable_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).statement)); }
-#line 3298 "bison_parser.cpp"
+#line 3308 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_hints: /* opt_hints  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3307,11 +3317,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3311 "bison_parser.cpp"
+#line 3321 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint_list: /* hint_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3320,104 +3330,104 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3324 "bison_parser.cpp"
+#line 3334 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_hint: /* hint  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3330 "bison_parser.cpp"
+#line 3340 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_transaction_statement: /* transaction_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).transaction_stmt)); }
-#line 3336 "bison_parser.cpp"
+#line 3346 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_statement: /* prepare_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).prep_stmt)); }
-#line 3342 "bison_parser.cpp"
+#line 3352 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_prepare_target_query: /* prepare_target_query  */
-#line 199 "bison_parser.y"
+#line 209 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3348 "bison_parser.cpp"
+#line 3358 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_execute_statement: /* execute_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).exec_stmt)); }
-#line 3354 "bison_parser.cpp"
+#line 3364 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_statement: /* import_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).import_stmt)); }
-#line 3360 "bison_parser.cpp"
+#line 3370 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_type: /* file_type  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3366 "bison_parser.cpp"
+#line 3376 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_file_path: /* file_path  */
-#line 199 "bison_parser.y"
+#line 209 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 3372 "bison_parser.cpp"
+#line 3382 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_import_export_options: /* opt_import_export_options  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 3378 "bison_parser.cpp"
+#line 3388 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_import_export_options: /* import_export_options  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).import_export_option_t)); }
-#line 3384 "bison_parser.cpp"
+#line 3394 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_csv_option: /* csv_option  */
-#line 252 "bison_parser.y"
+#line 262 "bison_parser.y"
             {
   free(((*yyvaluep).csv_option_t)->second);
   delete (((*yyvaluep).csv_option_t));
 }
-#line 3393 "bison_parser.cpp"
+#line 3403 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_export_statement: /* export_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).export_stmt)); }
-#line 3399 "bison_parser.cpp"
+#line 3409 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_show_statement: /* show_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).show_stmt)); }
-#line 3405 "bison_parser.cpp"
+#line 3415 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_create_statement: /* create_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).create_stmt)); }
-#line 3411 "bison_parser.cpp"
+#line 3421 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_not_exists: /* opt_not_exists  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3417 "bison_parser.cpp"
+#line 3427 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem_commalist: /* table_elem_commalist  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).table_element_vec)) {
     for (auto ptr : *(((*yyvaluep).table_element_vec))) {
@@ -3426,41 +3436,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_element_vec));
 }
-#line 3430 "bison_parser.cpp"
+#line 3440 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_elem: /* table_elem  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table_element_t)); }
-#line 3436 "bison_parser.cpp"
+#line 3446 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_def: /* column_def  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).column_t)); }
-#line 3442 "bison_parser.cpp"
+#line 3452 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_type: /* column_type  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3448 "bison_parser.cpp"
+#line 3458 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_time_precision: /* opt_time_precision  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3454 "bison_parser.cpp"
+#line 3464 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_decimal_specification: /* opt_decimal_specification  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).ival_pair)); }
-#line 3460 "bison_parser.cpp"
+#line 3470 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_constraints: /* opt_column_constraints  */
-#line 244 "bison_parser.y"
+#line 254 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3469,11 +3479,11 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 3473 "bison_parser.cpp"
+#line 3483 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraints: /* column_constraints  */
-#line 244 "bison_parser.y"
+#line 254 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).column_constraints_t)->references)) {
     delete ptr;
@@ -3482,77 +3492,77 @@ yydestruct (const char *yymsg,
   delete ((*yyvaluep).column_constraints_t)->constraints;
   delete (((*yyvaluep).column_constraints_t));
 }
-#line 3486 "bison_parser.cpp"
+#line 3496 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_constraint: /* column_constraint  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3492 "bison_parser.cpp"
+#line 3502 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_constraint: /* table_constraint  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table_constraint_t)); }
-#line 3498 "bison_parser.cpp"
+#line 3508 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_references_spec: /* references_spec  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).references_spec_t)); }
-#line 3504 "bison_parser.cpp"
+#line 3514 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_statement: /* drop_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).drop_stmt)); }
-#line 3510 "bison_parser.cpp"
+#line 3520 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_exists: /* opt_exists  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3516 "bison_parser.cpp"
+#line 3526 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_statement: /* alter_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).alter_stmt)); }
-#line 3522 "bison_parser.cpp"
+#line 3532 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alter_action: /* alter_action  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).alter_action_t)); }
-#line 3528 "bison_parser.cpp"
+#line 3538 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_drop_action: /* drop_action  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).drop_action_t)); }
-#line 3534 "bison_parser.cpp"
+#line 3544 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_delete_statement: /* delete_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 3540 "bison_parser.cpp"
+#line 3550 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_truncate_statement: /* truncate_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).delete_stmt)); }
-#line 3546 "bison_parser.cpp"
+#line 3556 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_insert_statement: /* insert_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).insert_stmt)); }
-#line 3552 "bison_parser.cpp"
+#line 3562 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_column_list: /* opt_column_list  */
-#line 191 "bison_parser.y"
+#line 201 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -3561,17 +3571,17 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 3565 "bison_parser.cpp"
+#line 3575 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_statement: /* update_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).update_stmt)); }
-#line 3571 "bison_parser.cpp"
+#line 3581 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause_commalist: /* update_clause_commalist  */
-#line 213 "bison_parser.y"
+#line 223 "bison_parser.y"
             {
   for (auto ptr : *(((*yyvaluep).update_vec))) {
     free(ptr->column);
@@ -3580,81 +3590,81 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).update_vec));
 }
-#line 3584 "bison_parser.cpp"
+#line 3594 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_update_clause: /* update_clause  */
-#line 208 "bison_parser.y"
+#line 218 "bison_parser.y"
             {
   free(((*yyvaluep).update_t)->column);
   delete ((*yyvaluep).update_t)->value;
   delete (((*yyvaluep).update_t));
 }
-#line 3594 "bison_parser.cpp"
+#line 3604 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_statement: /* select_statement  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3600 "bison_parser.cpp"
+#line 3610 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation: /* select_within_set_operation  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3606 "bison_parser.cpp"
+#line 3616 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_within_set_operation_no_parentheses: /* select_within_set_operation_no_parentheses  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3612 "bison_parser.cpp"
+#line 3622 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_with_paren: /* select_with_paren  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3618 "bison_parser.cpp"
+#line 3628 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_no_paren: /* select_no_paren  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3624 "bison_parser.cpp"
+#line 3634 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_operator: /* set_operator  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 3630 "bison_parser.cpp"
+#line 3640 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_set_type: /* set_type  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).set_operator_t)); }
-#line 3636 "bison_parser.cpp"
+#line 3646 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_all: /* opt_all  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3642 "bison_parser.cpp"
+#line 3652 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_clause: /* select_clause  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).select_stmt)); }
-#line 3648 "bison_parser.cpp"
+#line 3658 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_distinct: /* opt_distinct  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3654 "bison_parser.cpp"
+#line 3664 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_select_list: /* select_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3663,41 +3673,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3667 "bison_parser.cpp"
+#line 3677 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_from_clause: /* opt_from_clause  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3673 "bison_parser.cpp"
+#line 3683 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_from_clause: /* from_clause  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 3679 "bison_parser.cpp"
+#line 3689 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_where: /* opt_where  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3685 "bison_parser.cpp"
+#line 3695 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_group: /* opt_group  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).group_t)); }
-#line 3691 "bison_parser.cpp"
+#line 3701 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_having: /* opt_having  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3697 "bison_parser.cpp"
+#line 3707 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order: /* opt_order  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3706,11 +3716,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 3710 "bison_parser.cpp"
+#line 3720 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_list: /* order_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).order_vec)) {
     for (auto ptr : *(((*yyvaluep).order_vec))) {
@@ -3719,41 +3729,41 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).order_vec));
 }
-#line 3723 "bison_parser.cpp"
+#line 3733 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_order_desc: /* order_desc  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).order)); }
-#line 3729 "bison_parser.cpp"
+#line 3739 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_order_type: /* opt_order_type  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3735 "bison_parser.cpp"
+#line 3745 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_null_ordering: /* opt_null_ordering  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3741 "bison_parser.cpp"
+#line 3751 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_top: /* opt_top  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 3747 "bison_parser.cpp"
+#line 3757 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_limit: /* opt_limit  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).limit)); }
-#line 3753 "bison_parser.cpp"
+#line 3763 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_list: /* expr_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3762,11 +3772,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3766 "bison_parser.cpp"
+#line 3776 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_extended_literal_list: /* opt_extended_literal_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3775,11 +3785,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3779 "bison_parser.cpp"
+#line 3789 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal_list: /* extended_literal_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3788,113 +3798,113 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3792 "bison_parser.cpp"
+#line 3802 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_casted_extended_literal: /* casted_extended_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3798 "bison_parser.cpp"
+#line 3808 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extended_literal: /* extended_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3804 "bison_parser.cpp"
+#line 3814 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr_alias: /* expr_alias  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3810 "bison_parser.cpp"
+#line 3820 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_expr: /* expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3816 "bison_parser.cpp"
+#line 3826 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_operand: /* operand  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3822 "bison_parser.cpp"
+#line 3832 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_scalar_expr: /* scalar_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3828 "bison_parser.cpp"
+#line 3838 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_unary_expr: /* unary_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3834 "bison_parser.cpp"
+#line 3844 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_binary_expr: /* binary_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3840 "bison_parser.cpp"
+#line 3850 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_logic_expr: /* logic_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3846 "bison_parser.cpp"
+#line 3856 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_in_expr: /* in_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3852 "bison_parser.cpp"
+#line 3862 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_not_expr: /* not_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3858 "bison_parser.cpp"
+#line 3868 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_expr: /* case_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3864 "bison_parser.cpp"
+#line 3874 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_case_list: /* case_list  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3870 "bison_parser.cpp"
+#line 3880 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_exists_expr: /* exists_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3876 "bison_parser.cpp"
+#line 3886 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_comp_expr: /* comp_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3882 "bison_parser.cpp"
+#line 3892 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_function_expr: /* function_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3888 "bison_parser.cpp"
+#line 3898 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_window: /* opt_window  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).window_description)); }
-#line 3894 "bison_parser.cpp"
+#line 3904 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_partition: /* opt_partition  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).expr_vec)) {
     for (auto ptr : *(((*yyvaluep).expr_vec))) {
@@ -3903,155 +3913,155 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).expr_vec));
 }
-#line 3907 "bison_parser.cpp"
+#line 3917 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_frame_clause: /* opt_frame_clause  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).frame_description)); }
-#line 3913 "bison_parser.cpp"
+#line 3923 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_type: /* frame_type  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3919 "bison_parser.cpp"
+#line 3929 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_frame_bound: /* frame_bound  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).frame_bound)); }
-#line 3925 "bison_parser.cpp"
+#line 3935 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_extract_expr: /* extract_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3931 "bison_parser.cpp"
+#line 3941 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_cast_expr: /* cast_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3937 "bison_parser.cpp"
+#line 3947 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field: /* datetime_field  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3943 "bison_parser.cpp"
+#line 3953 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_datetime_field_plural: /* datetime_field_plural  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3949 "bison_parser.cpp"
+#line 3959 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_duration_field: /* duration_field  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 3955 "bison_parser.cpp"
+#line 3965 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_expr: /* array_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3961 "bison_parser.cpp"
+#line 3971 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_array_index: /* array_index  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3967 "bison_parser.cpp"
+#line 3977 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_between_expr: /* between_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3973 "bison_parser.cpp"
+#line 3983 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_column_name: /* column_name  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3979 "bison_parser.cpp"
+#line 3989 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_literal: /* literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3985 "bison_parser.cpp"
+#line 3995 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_string_literal: /* string_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3991 "bison_parser.cpp"
+#line 4001 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_bool_literal: /* bool_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 3997 "bison_parser.cpp"
+#line 4007 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_num_literal: /* num_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4003 "bison_parser.cpp"
+#line 4013 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_int_literal: /* int_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4009 "bison_parser.cpp"
+#line 4019 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_null_literal: /* null_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4015 "bison_parser.cpp"
+#line 4025 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_date_literal: /* date_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4021 "bison_parser.cpp"
+#line 4031 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_interval_literal: /* interval_literal  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4027 "bison_parser.cpp"
+#line 4037 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_param_expr: /* param_expr  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4033 "bison_parser.cpp"
+#line 4043 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref: /* table_ref  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4039 "bison_parser.cpp"
+#line 4049 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_atomic: /* table_ref_atomic  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4045 "bison_parser.cpp"
+#line 4055 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_nonjoin_table_ref_atomic: /* nonjoin_table_ref_atomic  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4051 "bison_parser.cpp"
+#line 4061 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_commalist: /* table_ref_commalist  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).table_vec)) {
     for (auto ptr : *(((*yyvaluep).table_vec))) {
@@ -4060,62 +4070,62 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).table_vec));
 }
-#line 4064 "bison_parser.cpp"
+#line 4074 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name: /* table_ref_name  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4070 "bison_parser.cpp"
+#line 4080 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_ref_name_no_alias: /* table_ref_name_no_alias  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4076 "bison_parser.cpp"
+#line 4086 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_name: /* table_name  */
-#line 187 "bison_parser.y"
+#line 197 "bison_parser.y"
             {
   free(((*yyvaluep).table_name).name);
   free(((*yyvaluep).table_name).schema);
 }
-#line 4085 "bison_parser.cpp"
+#line 4095 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_index_name: /* opt_index_name  */
-#line 199 "bison_parser.y"
+#line 209 "bison_parser.y"
             { free(((*yyvaluep).sval)); }
-#line 4091 "bison_parser.cpp"
+#line 4101 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_table_alias: /* table_alias  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4097 "bison_parser.cpp"
+#line 4107 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_table_alias: /* opt_table_alias  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4103 "bison_parser.cpp"
+#line 4113 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_alias: /* alias  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4109 "bison_parser.cpp"
+#line 4119 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_alias: /* opt_alias  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).alias_t)); }
-#line 4115 "bison_parser.cpp"
+#line 4125 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause: /* opt_locking_clause  */
-#line 230 "bison_parser.y"
+#line 240 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4130,11 +4140,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 4134 "bison_parser.cpp"
+#line 4144 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_locking_clause_list: /* opt_locking_clause_list  */
-#line 230 "bison_parser.y"
+#line 240 "bison_parser.y"
             {
   if (((*yyvaluep).locking_clause_vec)) {
     for (auto ptr : *(((*yyvaluep).locking_clause_vec))) {
@@ -4149,11 +4159,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_clause_vec));
 }
-#line 4153 "bison_parser.cpp"
+#line 4163 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_locking_clause: /* locking_clause  */
-#line 221 "bison_parser.y"
+#line 231 "bison_parser.y"
             {
   if (((*yyvaluep).locking_t)->tables) {
     for (auto ptr : *(((*yyvaluep).locking_t)->tables)) {
@@ -4163,23 +4173,23 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).locking_t));
 }
-#line 4167 "bison_parser.cpp"
+#line 4177 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_row_lock_mode: /* row_lock_mode  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 4173 "bison_parser.cpp"
+#line 4183 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_row_lock_policy: /* opt_row_lock_policy  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 4179 "bison_parser.cpp"
+#line 4189 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_with_clause: /* opt_with_clause  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4188,11 +4198,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4192 "bison_parser.cpp"
+#line 4202 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_clause: /* with_clause  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4201,11 +4211,11 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4205 "bison_parser.cpp"
+#line 4215 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description_list: /* with_description_list  */
-#line 200 "bison_parser.y"
+#line 210 "bison_parser.y"
             {
   if (((*yyvaluep).with_description_vec)) {
     for (auto ptr : *(((*yyvaluep).with_description_vec))) {
@@ -4214,35 +4224,35 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).with_description_vec));
 }
-#line 4218 "bison_parser.cpp"
+#line 4228 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_with_description: /* with_description  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).with_description_t)); }
-#line 4224 "bison_parser.cpp"
+#line 4234 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_clause: /* join_clause  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).table)); }
-#line 4230 "bison_parser.cpp"
+#line 4240 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_opt_join_type: /* opt_join_type  */
-#line 186 "bison_parser.y"
+#line 196 "bison_parser.y"
             { }
-#line 4236 "bison_parser.cpp"
+#line 4246 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_join_condition: /* join_condition  */
-#line 256 "bison_parser.y"
+#line 266 "bison_parser.y"
             { delete (((*yyvaluep).expr)); }
-#line 4242 "bison_parser.cpp"
+#line 4252 "bison_parser.cpp"
         break;
 
     case YYSYMBOL_ident_commalist: /* ident_commalist  */
-#line 191 "bison_parser.y"
+#line 201 "bison_parser.y"
             {
   if (((*yyvaluep).str_vec)) {
     for (auto ptr : *(((*yyvaluep).str_vec))) {
@@ -4251,7 +4261,7 @@ yydestruct (const char *yymsg,
   }
   delete (((*yyvaluep).str_vec));
 }
-#line 4255 "bison_parser.cpp"
+#line 4265 "bison_parser.cpp"
         break;
 
       default:
@@ -4348,7 +4358,7 @@ YYLTYPE yylloc = yyloc_default;
 
 
 /* User initialization code.  */
-#line 86 "bison_parser.y"
+#line 96 "bison_parser.y"
 {
   // Initialize
   yylloc.first_column = 0;
@@ -4359,7 +4369,7 @@ YYLTYPE yylloc = yyloc_default;
   yylloc.param_list = std::make_shared<std::vector<void*>>();
 }
 
-#line 4363 "bison_parser.cpp"
+#line 4373 "bison_parser.cpp"
 
   yylsp[0] = yylloc;
   goto yysetstate;
@@ -4570,7 +4580,7 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: statement_list opt_semicolon  */
-#line 392 "bison_parser.y"
+#line 402 "bison_parser.y"
                                      {
   (yyvsp[-1].stmt_vec)->back()->stringLength = (yylsp[0]).total_column - (yylsp[-1]).total_column;
 
@@ -4590,235 +4600,235 @@ yyreduce:
   }
     delete (yyvsp[-1].stmt_vec);
   }
-#line 4594 "bison_parser.cpp"
+#line 4604 "bison_parser.cpp"
     break;
 
   case 3: /* statement_list: statement  */
-#line 414 "bison_parser.y"
+#line 424 "bison_parser.y"
                            {
   (yyloc).total_column = 0;
   (yyval.stmt_vec) = new std::vector<SQLStatement*>();
   (yyval.stmt_vec)->push_back((yyvsp[0].statement));
 }
-#line 4604 "bison_parser.cpp"
+#line 4614 "bison_parser.cpp"
     break;
 
   case 4: /* statement_list: statement_list ';' statement  */
-#line 419 "bison_parser.y"
+#line 429 "bison_parser.y"
                                {
   (yyvsp[-2].stmt_vec)->back()->stringLength = (yylsp[-1]).total_column - (yylsp[-2]).total_column;
   (yyloc).total_column = (yylsp[-1]).total_column;
   (yyvsp[-2].stmt_vec)->push_back((yyvsp[0].statement));
   (yyval.stmt_vec) = (yyvsp[-2].stmt_vec);
 }
-#line 4615 "bison_parser.cpp"
+#line 4625 "bison_parser.cpp"
     break;
 
   case 5: /* statement: prepare_statement opt_hints  */
-#line 426 "bison_parser.y"
+#line 436 "bison_parser.y"
                                         {
   (yyval.statement) = (yyvsp[-1].prep_stmt);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4624 "bison_parser.cpp"
+#line 4634 "bison_parser.cpp"
     break;
 
   case 6: /* statement: preparable_statement opt_hints  */
-#line 430 "bison_parser.y"
+#line 440 "bison_parser.y"
                                  {
   (yyval.statement) = (yyvsp[-1].statement);
   (yyval.statement)->hints = (yyvsp[0].expr_vec);
 }
-#line 4633 "bison_parser.cpp"
+#line 4643 "bison_parser.cpp"
     break;
 
   case 7: /* statement: show_statement  */
-#line 434 "bison_parser.y"
+#line 444 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].show_stmt); }
-#line 4639 "bison_parser.cpp"
+#line 4649 "bison_parser.cpp"
     break;
 
   case 8: /* statement: import_statement  */
-#line 435 "bison_parser.y"
+#line 445 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].import_stmt); }
-#line 4645 "bison_parser.cpp"
+#line 4655 "bison_parser.cpp"
     break;
 
   case 9: /* statement: export_statement  */
-#line 436 "bison_parser.y"
+#line 446 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].export_stmt); }
-#line 4651 "bison_parser.cpp"
+#line 4661 "bison_parser.cpp"
     break;
 
   case 10: /* preparable_statement: select_statement  */
-#line 438 "bison_parser.y"
+#line 448 "bison_parser.y"
                                         { (yyval.statement) = (yyvsp[0].select_stmt); }
-#line 4657 "bison_parser.cpp"
+#line 4667 "bison_parser.cpp"
     break;
 
   case 11: /* preparable_statement: create_statement  */
-#line 439 "bison_parser.y"
+#line 449 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].create_stmt); }
-#line 4663 "bison_parser.cpp"
+#line 4673 "bison_parser.cpp"
     break;
 
   case 12: /* preparable_statement: insert_statement  */
-#line 440 "bison_parser.y"
+#line 450 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].insert_stmt); }
-#line 4669 "bison_parser.cpp"
+#line 4679 "bison_parser.cpp"
     break;
 
   case 13: /* preparable_statement: delete_statement  */
-#line 441 "bison_parser.y"
+#line 451 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4675 "bison_parser.cpp"
+#line 4685 "bison_parser.cpp"
     break;
 
   case 14: /* preparable_statement: truncate_statement  */
-#line 442 "bison_parser.y"
+#line 452 "bison_parser.y"
                      { (yyval.statement) = (yyvsp[0].delete_stmt); }
-#line 4681 "bison_parser.cpp"
+#line 4691 "bison_parser.cpp"
     break;
 
   case 15: /* preparable_statement: update_statement  */
-#line 443 "bison_parser.y"
+#line 453 "bison_parser.y"
                    { (yyval.statement) = (yyvsp[0].update_stmt); }
-#line 4687 "bison_parser.cpp"
+#line 4697 "bison_parser.cpp"
     break;
 
   case 16: /* preparable_statement: drop_statement  */
-#line 444 "bison_parser.y"
+#line 454 "bison_parser.y"
                  { (yyval.statement) = (yyvsp[0].drop_stmt); }
-#line 4693 "bison_parser.cpp"
+#line 4703 "bison_parser.cpp"
     break;
 
   case 17: /* preparable_statement: alter_statement  */
-#line 445 "bison_parser.y"
+#line 455 "bison_parser.y"
                   { (yyval.statement) = (yyvsp[0].alter_stmt); }
-#line 4699 "bison_parser.cpp"
+#line 4709 "bison_parser.cpp"
     break;
 
   case 18: /* preparable_statement: execute_statement  */
-#line 446 "bison_parser.y"
+#line 456 "bison_parser.y"
                     { (yyval.statement) = (yyvsp[0].exec_stmt); }
-#line 4705 "bison_parser.cpp"
+#line 4715 "bison_parser.cpp"
     break;
 
   case 19: /* preparable_statement: transaction_statement  */
-#line 447 "bison_parser.y"
+#line 457 "bison_parser.y"
                         { (yyval.statement) = (yyvsp[0].transaction_stmt); }
-#line 4711 "bison_parser.cpp"
+#line 4721 "bison_parser.cpp"
     break;
 
   case 20: /* opt_hints: WITH HINT '(' hint_list ')'  */
-#line 453 "bison_parser.y"
+#line 463 "bison_parser.y"
                                         { (yyval.expr_vec) = (yyvsp[-1].expr_vec); }
-#line 4717 "bison_parser.cpp"
+#line 4727 "bison_parser.cpp"
     break;
 
   case 21: /* opt_hints: %empty  */
-#line 454 "bison_parser.y"
+#line 464 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 4723 "bison_parser.cpp"
+#line 4733 "bison_parser.cpp"
     break;
 
   case 22: /* hint_list: hint  */
-#line 456 "bison_parser.y"
+#line 466 "bison_parser.y"
                  {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 4732 "bison_parser.cpp"
+#line 4742 "bison_parser.cpp"
     break;
 
   case 23: /* hint_list: hint_list ',' hint  */
-#line 460 "bison_parser.y"
+#line 470 "bison_parser.y"
                      {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 4741 "bison_parser.cpp"
+#line 4751 "bison_parser.cpp"
     break;
 
   case 24: /* hint: IDENTIFIER  */
-#line 465 "bison_parser.y"
+#line 475 "bison_parser.y"
                   {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[0].sval);
 }
-#line 4750 "bison_parser.cpp"
+#line 4760 "bison_parser.cpp"
     break;
 
   case 25: /* hint: IDENTIFIER '(' extended_literal_list ')'  */
-#line 469 "bison_parser.y"
+#line 479 "bison_parser.y"
                                            {
   (yyval.expr) = Expr::make(kExprHint);
   (yyval.expr)->name = (yyvsp[-3].sval);
   (yyval.expr)->exprList = (yyvsp[-1].expr_vec);
 }
-#line 4760 "bison_parser.cpp"
+#line 4770 "bison_parser.cpp"
     break;
 
   case 26: /* transaction_statement: BEGIN opt_transaction_keyword  */
-#line 479 "bison_parser.y"
+#line 489 "bison_parser.y"
                                                       { (yyval.transaction_stmt) = new TransactionStatement(kBeginTransaction); }
-#line 4766 "bison_parser.cpp"
+#line 4776 "bison_parser.cpp"
     break;
 
   case 27: /* transaction_statement: ROLLBACK opt_transaction_keyword  */
-#line 480 "bison_parser.y"
+#line 490 "bison_parser.y"
                                    { (yyval.transaction_stmt) = new TransactionStatement(kRollbackTransaction); }
-#line 4772 "bison_parser.cpp"
+#line 4782 "bison_parser.cpp"
     break;
 
   case 28: /* transaction_statement: COMMIT opt_transaction_keyword  */
-#line 481 "bison_parser.y"
+#line 491 "bison_parser.y"
                                  { (yyval.transaction_stmt) = new TransactionStatement(kCommitTransaction); }
-#line 4778 "bison_parser.cpp"
+#line 4788 "bison_parser.cpp"
     break;
 
   case 31: /* prepare_statement: PREPARE IDENTIFIER FROM prepare_target_query  */
-#line 489 "bison_parser.y"
+#line 499 "bison_parser.y"
                                                                  {
   (yyval.prep_stmt) = new PrepareStatement();
   (yyval.prep_stmt)->name = (yyvsp[-2].sval);
   (yyval.prep_stmt)->query = (yyvsp[0].sval);
 }
-#line 4788 "bison_parser.cpp"
+#line 4798 "bison_parser.cpp"
     break;
 
   case 33: /* execute_statement: EXECUTE IDENTIFIER  */
-#line 497 "bison_parser.y"
+#line 507 "bison_parser.y"
                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[0].sval);
 }
-#line 4797 "bison_parser.cpp"
+#line 4807 "bison_parser.cpp"
     break;
 
   case 34: /* execute_statement: EXECUTE IDENTIFIER '(' opt_extended_literal_list ')'  */
-#line 501 "bison_parser.y"
+#line 511 "bison_parser.y"
                                                        {
   (yyval.exec_stmt) = new ExecuteStatement();
   (yyval.exec_stmt)->name = (yyvsp[-3].sval);
   (yyval.exec_stmt)->parameters = (yyvsp[-1].expr_vec);
 }
-#line 4807 "bison_parser.cpp"
+#line 4817 "bison_parser.cpp"
     break;
 
   case 35: /* import_statement: IMPORT FROM file_type FILE file_path INTO table_name  */
-#line 513 "bison_parser.y"
+#line 523 "bison_parser.y"
                                                                         {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-4].import_type_t));
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
   (yyval.import_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.import_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 4818 "bison_parser.cpp"
+#line 4828 "bison_parser.cpp"
     break;
 
   case 36: /* import_statement: COPY table_name FROM file_path opt_import_export_options opt_where  */
-#line 519 "bison_parser.y"
+#line 529 "bison_parser.y"
                                                                      {
   (yyval.import_stmt) = new ImportStatement((yyvsp[-1].import_export_option_t)->format);
   (yyval.import_stmt)->filePath = (yyvsp[-2].sval);
@@ -4835,17 +4845,17 @@ yyreduce:
   }
   delete (yyvsp[-1].import_export_option_t);
 }
-#line 4839 "bison_parser.cpp"
+#line 4849 "bison_parser.cpp"
     break;
 
   case 37: /* file_type: IDENTIFIER  */
-#line 536 "bison_parser.y"
+#line 546 "bison_parser.y"
                        {
-  if (strcasecmp((yyvsp[0].sval), "csv") == 0) {
+  if (equalsIgnoreCase((yyvsp[0].sval), "csv")) {
     (yyval.import_type_t) = kImportCSV;
-  } else if (strcasecmp((yyvsp[0].sval), "tbl") == 0) {
+  } else if (equalsIgnoreCase((yyvsp[0].sval), "tbl")) {
     (yyval.import_type_t) = kImportTbl;
-  } else if (strcasecmp((yyvsp[0].sval), "binary") == 0 || strcasecmp((yyvsp[0].sval), "bin") == 0) {
+  } else if (equalsIgnoreCase((yyvsp[0].sval), "binary") || equalsIgnoreCase((yyvsp[0].sval), "bin")) {
     (yyval.import_type_t) = kImportBinary;
   } else {
     free((yyvsp[0].sval));
@@ -4854,35 +4864,35 @@ yyreduce:
   }
   free((yyvsp[0].sval));
 }
-#line 4858 "bison_parser.cpp"
+#line 4868 "bison_parser.cpp"
     break;
 
   case 38: /* file_path: STRING  */
-#line 551 "bison_parser.y"
+#line 561 "bison_parser.y"
                    { (yyval.sval) = (yyvsp[0].sval); }
-#line 4864 "bison_parser.cpp"
+#line 4874 "bison_parser.cpp"
     break;
 
   case 39: /* opt_import_export_options: WITH '(' import_export_options ')'  */
-#line 553 "bison_parser.y"
+#line 563 "bison_parser.y"
                                                                { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4870 "bison_parser.cpp"
+#line 4880 "bison_parser.cpp"
     break;
 
   case 40: /* opt_import_export_options: '(' import_export_options ')'  */
-#line 554 "bison_parser.y"
+#line 564 "bison_parser.y"
                                 { (yyval.import_export_option_t) = (yyvsp[-1].import_export_option_t); }
-#line 4876 "bison_parser.cpp"
+#line 4886 "bison_parser.cpp"
     break;
 
   case 41: /* opt_import_export_options: %empty  */
-#line 555 "bison_parser.y"
+#line 565 "bison_parser.y"
               { (yyval.import_export_option_t) = new ImportExportOptions{}; }
-#line 4882 "bison_parser.cpp"
+#line 4892 "bison_parser.cpp"
     break;
 
   case 42: /* import_export_options: import_export_options ',' FORMAT file_type  */
-#line 557 "bison_parser.y"
+#line 567 "bison_parser.y"
                                                                    {
   if ((yyvsp[-3].import_export_option_t)->format != kImportAuto) {
     delete (yyvsp[-3].import_export_option_t);
@@ -4897,20 +4907,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->format = (yyvsp[0].import_type_t);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4901 "bison_parser.cpp"
+#line 4911 "bison_parser.cpp"
     break;
 
   case 43: /* import_export_options: FORMAT file_type  */
-#line 571 "bison_parser.y"
+#line 581 "bison_parser.y"
                    {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->format = (yyvsp[0].import_type_t);
 }
-#line 4910 "bison_parser.cpp"
+#line 4920 "bison_parser.cpp"
     break;
 
   case 44: /* import_export_options: import_export_options ',' ENCODING STRING  */
-#line 575 "bison_parser.y"
+#line 585 "bison_parser.y"
                                             {
   if ((yyvsp[-3].import_export_option_t)->encoding) {
     delete (yyvsp[-3].import_export_option_t);
@@ -4921,20 +4931,20 @@ yyreduce:
   (yyvsp[-3].import_export_option_t)->encoding = (yyvsp[0].sval);
   (yyval.import_export_option_t) = (yyvsp[-3].import_export_option_t);
 }
-#line 4925 "bison_parser.cpp"
+#line 4935 "bison_parser.cpp"
     break;
 
   case 45: /* import_export_options: ENCODING STRING  */
-#line 585 "bison_parser.y"
+#line 595 "bison_parser.y"
                   {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->encoding = (yyvsp[0].sval);
 }
-#line 4934 "bison_parser.cpp"
+#line 4944 "bison_parser.cpp"
     break;
 
   case 46: /* import_export_options: import_export_options ',' csv_option  */
-#line 589 "bison_parser.y"
+#line 599 "bison_parser.y"
                                        {
   if ((yyvsp[-2].import_export_option_t)->format != kImportAuto && (yyvsp[-2].import_export_option_t)->format != kImportCSV) {
     delete (yyvsp[-2].import_export_option_t);
@@ -4959,11 +4969,11 @@ yyreduce:
   delete (yyvsp[0].csv_option_t);
   (yyval.import_export_option_t) = (yyvsp[-2].import_export_option_t);
 }
-#line 4963 "bison_parser.cpp"
+#line 4973 "bison_parser.cpp"
     break;
 
   case 47: /* import_export_options: csv_option  */
-#line 613 "bison_parser.y"
+#line 623 "bison_parser.y"
              {
   (yyval.import_export_option_t) = new ImportExportOptions{};
   (yyval.import_export_option_t)->csv_options = new CsvOptions{};
@@ -4971,15 +4981,15 @@ yyreduce:
 
   delete (yyvsp[0].csv_option_t);
 }
-#line 4975 "bison_parser.cpp"
+#line 4985 "bison_parser.cpp"
     break;
 
   case 48: /* csv_option: IDENTIFIER STRING  */
-#line 621 "bison_parser.y"
+#line 631 "bison_parser.y"
                                {
-  if (strcasecmp((yyvsp[-1].sval), "DELIMITER") == 0) {
+  if (equalsIgnoreCase((yyvsp[-1].sval), "DELIMITER")) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, (yyvsp[0].sval));
-  } else if (strcasecmp((yyvsp[-1].sval), "QUOTE") == 0) {
+  } else if (equalsIgnoreCase((yyvsp[-1].sval), "QUOTE")) {
     (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Quote, (yyvsp[0].sval));
   } else {
     free((yyvsp[-1].sval));
@@ -4989,17 +4999,17 @@ yyreduce:
   }
   free((yyvsp[-1].sval));
 }
-#line 4993 "bison_parser.cpp"
+#line 5003 "bison_parser.cpp"
     break;
 
   case 49: /* csv_option: NULL STRING  */
-#line 634 "bison_parser.y"
+#line 644 "bison_parser.y"
               { (yyval.csv_option_t) = new std::pair<CsvOptionType, char*>(CsvOptionType::Null, (yyvsp[0].sval)); }
-#line 4999 "bison_parser.cpp"
+#line 5009 "bison_parser.cpp"
     break;
 
   case 50: /* export_statement: COPY table_name TO file_path opt_import_export_options  */
-#line 641 "bison_parser.y"
+#line 651 "bison_parser.y"
                                                                           {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -5015,11 +5025,11 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 5019 "bison_parser.cpp"
+#line 5029 "bison_parser.cpp"
     break;
 
   case 51: /* export_statement: COPY select_with_paren TO file_path opt_import_export_options  */
-#line 656 "bison_parser.y"
+#line 666 "bison_parser.y"
                                                                 {
   (yyval.export_stmt) = new ExportStatement((yyvsp[0].import_export_option_t)->format);
   (yyval.export_stmt)->filePath = (yyvsp[-1].sval);
@@ -5034,43 +5044,43 @@ yyreduce:
   }
   delete (yyvsp[0].import_export_option_t);
 }
-#line 5038 "bison_parser.cpp"
+#line 5048 "bison_parser.cpp"
     break;
 
   case 52: /* show_statement: SHOW TABLES  */
-#line 676 "bison_parser.y"
+#line 686 "bison_parser.y"
                              { (yyval.show_stmt) = new ShowStatement(kShowTables); }
-#line 5044 "bison_parser.cpp"
+#line 5054 "bison_parser.cpp"
     break;
 
   case 53: /* show_statement: SHOW COLUMNS table_name  */
-#line 677 "bison_parser.y"
+#line 687 "bison_parser.y"
                           {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5054 "bison_parser.cpp"
+#line 5064 "bison_parser.cpp"
     break;
 
   case 54: /* show_statement: DESCRIBE table_name  */
-#line 682 "bison_parser.y"
+#line 692 "bison_parser.y"
                       {
   (yyval.show_stmt) = new ShowStatement(kShowColumns);
   (yyval.show_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.show_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5064 "bison_parser.cpp"
+#line 5074 "bison_parser.cpp"
     break;
 
   case 55: /* create_statement: CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE file_path  */
-#line 693 "bison_parser.y"
+#line 703 "bison_parser.y"
                                                                                          {
   (yyval.create_stmt) = new CreateStatement(kCreateTableFromTbl);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-5].bval);
   (yyval.create_stmt)->schema = (yyvsp[-4].table_name).schema;
   (yyval.create_stmt)->tableName = (yyvsp[-4].table_name).name;
-  if (strcasecmp((yyvsp[-2].sval), "tbl") != 0) {
+  if (!equalsIgnoreCase((yyvsp[-2].sval), "tbl")) {
     delete (yyval.create_stmt);
     free((yyvsp[-2].sval));
     free((yyvsp[0].sval));
@@ -5080,11 +5090,11 @@ yyreduce:
   free((yyvsp[-2].sval));
   (yyval.create_stmt)->filePath = (yyvsp[0].sval);
 }
-#line 5084 "bison_parser.cpp"
+#line 5094 "bison_parser.cpp"
     break;
 
   case 56: /* create_statement: CREATE TABLE opt_not_exists table_name '(' table_elem_commalist ')'  */
-#line 708 "bison_parser.y"
+#line 718 "bison_parser.y"
                                                                       {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -5097,11 +5107,11 @@ yyreduce:
     YYERROR;
   }
 }
-#line 5101 "bison_parser.cpp"
+#line 5111 "bison_parser.cpp"
     break;
 
   case 57: /* create_statement: CREATE TABLE opt_not_exists table_name AS select_statement  */
-#line 720 "bison_parser.y"
+#line 730 "bison_parser.y"
                                                              {
   (yyval.create_stmt) = new CreateStatement(kCreateTable);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-3].bval);
@@ -5109,11 +5119,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-2].table_name).name;
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5113 "bison_parser.cpp"
+#line 5123 "bison_parser.cpp"
     break;
 
   case 58: /* create_statement: CREATE INDEX opt_not_exists opt_index_name ON table_name '(' ident_commalist ')'  */
-#line 727 "bison_parser.y"
+#line 737 "bison_parser.y"
                                                                                    {
   (yyval.create_stmt) = new CreateStatement(kCreateIndex);
   (yyval.create_stmt)->indexName = (yyvsp[-5].sval);
@@ -5122,11 +5132,11 @@ yyreduce:
   (yyval.create_stmt)->tableName = (yyvsp[-3].table_name).name;
   (yyval.create_stmt)->indexColumns = (yyvsp[-1].str_vec);
 }
-#line 5126 "bison_parser.cpp"
+#line 5136 "bison_parser.cpp"
     break;
 
   case 59: /* create_statement: CREATE VIEW opt_not_exists table_name opt_column_list AS select_statement  */
-#line 735 "bison_parser.y"
+#line 745 "bison_parser.y"
                                                                             {
   (yyval.create_stmt) = new CreateStatement(kCreateView);
   (yyval.create_stmt)->ifNotExists = (yyvsp[-4].bval);
@@ -5135,53 +5145,53 @@ yyreduce:
   (yyval.create_stmt)->viewColumns = (yyvsp[-2].str_vec);
   (yyval.create_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5139 "bison_parser.cpp"
+#line 5149 "bison_parser.cpp"
     break;
 
   case 60: /* opt_not_exists: IF NOT EXISTS  */
-#line 744 "bison_parser.y"
+#line 754 "bison_parser.y"
                                { (yyval.bval) = true; }
-#line 5145 "bison_parser.cpp"
+#line 5155 "bison_parser.cpp"
     break;
 
   case 61: /* opt_not_exists: %empty  */
-#line 745 "bison_parser.y"
+#line 755 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5151 "bison_parser.cpp"
+#line 5161 "bison_parser.cpp"
     break;
 
   case 62: /* table_elem_commalist: table_elem  */
-#line 747 "bison_parser.y"
+#line 757 "bison_parser.y"
                                   {
   (yyval.table_element_vec) = new std::vector<TableElement*>();
   (yyval.table_element_vec)->push_back((yyvsp[0].table_element_t));
 }
-#line 5160 "bison_parser.cpp"
+#line 5170 "bison_parser.cpp"
     break;
 
   case 63: /* table_elem_commalist: table_elem_commalist ',' table_elem  */
-#line 751 "bison_parser.y"
+#line 761 "bison_parser.y"
                                       {
   (yyvsp[-2].table_element_vec)->push_back((yyvsp[0].table_element_t));
   (yyval.table_element_vec) = (yyvsp[-2].table_element_vec);
 }
-#line 5169 "bison_parser.cpp"
+#line 5179 "bison_parser.cpp"
     break;
 
   case 64: /* table_elem: column_def  */
-#line 756 "bison_parser.y"
+#line 766 "bison_parser.y"
                         { (yyval.table_element_t) = (yyvsp[0].column_t); }
-#line 5175 "bison_parser.cpp"
+#line 5185 "bison_parser.cpp"
     break;
 
   case 65: /* table_elem: table_constraint  */
-#line 757 "bison_parser.y"
+#line 767 "bison_parser.y"
                    { (yyval.table_element_t) = (yyvsp[0].table_constraint_t); }
-#line 5181 "bison_parser.cpp"
+#line 5191 "bison_parser.cpp"
     break;
 
   case 66: /* column_def: IDENTIFIER column_type opt_column_constraints  */
-#line 759 "bison_parser.y"
+#line 769 "bison_parser.y"
                                                            {
   (yyval.column_t) = new ColumnDefinition((yyvsp[-2].sval), (yyvsp[-1].column_type_t), (yyvsp[0].column_constraints_t)->constraints, (yyvsp[0].column_constraints_t)->references);
   if (!(yyval.column_t)->trySetNullableExplicit()) {
@@ -5189,192 +5199,192 @@ yyreduce:
   }
   delete (yyvsp[0].column_constraints_t);
 }
-#line 5193 "bison_parser.cpp"
+#line 5203 "bison_parser.cpp"
     break;
 
   case 67: /* column_type: BIGINT  */
-#line 767 "bison_parser.y"
+#line 777 "bison_parser.y"
                      { (yyval.column_type_t) = ColumnType{DataType::BIGINT}; }
-#line 5199 "bison_parser.cpp"
+#line 5209 "bison_parser.cpp"
     break;
 
   case 68: /* column_type: BOOLEAN  */
-#line 768 "bison_parser.y"
+#line 778 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::BOOLEAN}; }
-#line 5205 "bison_parser.cpp"
+#line 5215 "bison_parser.cpp"
     break;
 
   case 69: /* column_type: CHAR '(' INTVAL ')'  */
-#line 769 "bison_parser.y"
+#line 779 "bison_parser.y"
                       { (yyval.column_type_t) = ColumnType{DataType::CHAR, (yyvsp[-1].ival)}; }
-#line 5211 "bison_parser.cpp"
+#line 5221 "bison_parser.cpp"
     break;
 
   case 70: /* column_type: CHARACTER_VARYING '(' INTVAL ')'  */
-#line 770 "bison_parser.y"
+#line 780 "bison_parser.y"
                                    { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5217 "bison_parser.cpp"
+#line 5227 "bison_parser.cpp"
     break;
 
   case 71: /* column_type: DATE  */
-#line 771 "bison_parser.y"
+#line 781 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::DATE}; }
-#line 5223 "bison_parser.cpp"
+#line 5233 "bison_parser.cpp"
     break;
 
   case 72: /* column_type: DATETIME  */
-#line 772 "bison_parser.y"
+#line 782 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5229 "bison_parser.cpp"
+#line 5239 "bison_parser.cpp"
     break;
 
   case 73: /* column_type: DECIMAL opt_decimal_specification  */
-#line 773 "bison_parser.y"
+#line 783 "bison_parser.y"
                                     {
   (yyval.column_type_t) = ColumnType{DataType::DECIMAL, 0, (yyvsp[0].ival_pair)->first, (yyvsp[0].ival_pair)->second};
   delete (yyvsp[0].ival_pair);
 }
-#line 5238 "bison_parser.cpp"
+#line 5248 "bison_parser.cpp"
     break;
 
   case 74: /* column_type: DOUBLE  */
-#line 777 "bison_parser.y"
+#line 787 "bison_parser.y"
          { (yyval.column_type_t) = ColumnType{DataType::DOUBLE}; }
-#line 5244 "bison_parser.cpp"
+#line 5254 "bison_parser.cpp"
     break;
 
   case 75: /* column_type: FLOAT  */
-#line 778 "bison_parser.y"
+#line 788 "bison_parser.y"
         { (yyval.column_type_t) = ColumnType{DataType::FLOAT}; }
-#line 5250 "bison_parser.cpp"
+#line 5260 "bison_parser.cpp"
     break;
 
   case 76: /* column_type: INT  */
-#line 779 "bison_parser.y"
+#line 789 "bison_parser.y"
       { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5256 "bison_parser.cpp"
+#line 5266 "bison_parser.cpp"
     break;
 
   case 77: /* column_type: INTEGER  */
-#line 780 "bison_parser.y"
+#line 790 "bison_parser.y"
           { (yyval.column_type_t) = ColumnType{DataType::INT}; }
-#line 5262 "bison_parser.cpp"
+#line 5272 "bison_parser.cpp"
     break;
 
   case 78: /* column_type: LONG  */
-#line 781 "bison_parser.y"
+#line 791 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::LONG}; }
-#line 5268 "bison_parser.cpp"
+#line 5278 "bison_parser.cpp"
     break;
 
   case 79: /* column_type: REAL  */
-#line 782 "bison_parser.y"
+#line 792 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::REAL}; }
-#line 5274 "bison_parser.cpp"
+#line 5284 "bison_parser.cpp"
     break;
 
   case 80: /* column_type: SMALLINT  */
-#line 783 "bison_parser.y"
+#line 793 "bison_parser.y"
            { (yyval.column_type_t) = ColumnType{DataType::SMALLINT}; }
-#line 5280 "bison_parser.cpp"
+#line 5290 "bison_parser.cpp"
     break;
 
   case 81: /* column_type: TEXT  */
-#line 784 "bison_parser.y"
+#line 794 "bison_parser.y"
        { (yyval.column_type_t) = ColumnType{DataType::TEXT}; }
-#line 5286 "bison_parser.cpp"
+#line 5296 "bison_parser.cpp"
     break;
 
   case 82: /* column_type: TIME opt_time_precision  */
-#line 785 "bison_parser.y"
+#line 795 "bison_parser.y"
                           { (yyval.column_type_t) = ColumnType{DataType::TIME, 0, (yyvsp[0].ival)}; }
-#line 5292 "bison_parser.cpp"
+#line 5302 "bison_parser.cpp"
     break;
 
   case 83: /* column_type: TIMESTAMP  */
-#line 786 "bison_parser.y"
+#line 796 "bison_parser.y"
             { (yyval.column_type_t) = ColumnType{DataType::DATETIME}; }
-#line 5298 "bison_parser.cpp"
+#line 5308 "bison_parser.cpp"
     break;
 
   case 84: /* column_type: VARCHAR '(' INTVAL ')'  */
-#line 787 "bison_parser.y"
+#line 797 "bison_parser.y"
                          { (yyval.column_type_t) = ColumnType{DataType::VARCHAR, (yyvsp[-1].ival)}; }
-#line 5304 "bison_parser.cpp"
+#line 5314 "bison_parser.cpp"
     break;
 
   case 85: /* opt_time_precision: '(' INTVAL ')'  */
-#line 789 "bison_parser.y"
+#line 799 "bison_parser.y"
                                     { (yyval.ival) = (yyvsp[-1].ival); }
-#line 5310 "bison_parser.cpp"
+#line 5320 "bison_parser.cpp"
     break;
 
   case 86: /* opt_time_precision: %empty  */
-#line 790 "bison_parser.y"
+#line 800 "bison_parser.y"
               { (yyval.ival) = 0; }
-#line 5316 "bison_parser.cpp"
+#line 5326 "bison_parser.cpp"
     break;
 
   case 87: /* opt_decimal_specification: '(' INTVAL ',' INTVAL ')'  */
-#line 792 "bison_parser.y"
+#line 802 "bison_parser.y"
                                                       { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-3].ival), (yyvsp[-1].ival)}; }
-#line 5322 "bison_parser.cpp"
+#line 5332 "bison_parser.cpp"
     break;
 
   case 88: /* opt_decimal_specification: '(' INTVAL ')'  */
-#line 793 "bison_parser.y"
+#line 803 "bison_parser.y"
                  { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{(yyvsp[-1].ival), 0}; }
-#line 5328 "bison_parser.cpp"
+#line 5338 "bison_parser.cpp"
     break;
 
   case 89: /* opt_decimal_specification: %empty  */
-#line 794 "bison_parser.y"
+#line 804 "bison_parser.y"
               { (yyval.ival_pair) = new std::pair<int64_t, int64_t>{0, 0}; }
-#line 5334 "bison_parser.cpp"
+#line 5344 "bison_parser.cpp"
     break;
 
   case 90: /* opt_column_constraints: column_constraints  */
-#line 796 "bison_parser.y"
+#line 806 "bison_parser.y"
                                             { (yyval.column_constraints_t) = (yyvsp[0].column_constraints_t); }
-#line 5340 "bison_parser.cpp"
+#line 5350 "bison_parser.cpp"
     break;
 
   case 91: /* opt_column_constraints: %empty  */
-#line 797 "bison_parser.y"
+#line 807 "bison_parser.y"
               { (yyval.column_constraints_t) = new ColumnConstraints(); }
-#line 5346 "bison_parser.cpp"
+#line 5356 "bison_parser.cpp"
     break;
 
   case 92: /* column_constraints: column_constraint  */
-#line 799 "bison_parser.y"
+#line 809 "bison_parser.y"
                                        {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
 }
-#line 5355 "bison_parser.cpp"
+#line 5365 "bison_parser.cpp"
     break;
 
   case 93: /* column_constraints: column_constraints column_constraint  */
-#line 803 "bison_parser.y"
+#line 813 "bison_parser.y"
                                        {
   (yyvsp[-1].column_constraints_t)->constraints->insert((yyvsp[0].column_constraint_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5364 "bison_parser.cpp"
+#line 5374 "bison_parser.cpp"
     break;
 
   case 94: /* column_constraints: references_spec  */
-#line 807 "bison_parser.y"
+#line 817 "bison_parser.y"
                   {
   (yyval.column_constraints_t) = new ColumnConstraints();
   (yyval.column_constraints_t)->constraints->insert(ConstraintType::ForeignKey);
   (yyval.column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
 }
-#line 5374 "bison_parser.cpp"
+#line 5384 "bison_parser.cpp"
     break;
 
   case 95: /* column_constraints: column_constraints references_spec  */
-#line 812 "bison_parser.y"
+#line 822 "bison_parser.y"
                                      {
   // Multiple foreign keys for the same column could be possible, so we do not raise an error in that case.
   // Think of foreign keys referenced on multiple levels (returned item references sold item references items).
@@ -5382,159 +5392,159 @@ yyreduce:
   (yyvsp[-1].column_constraints_t)->references->emplace_back((yyvsp[0].references_spec_t));
   (yyval.column_constraints_t) = (yyvsp[-1].column_constraints_t);
 }
-#line 5386 "bison_parser.cpp"
+#line 5396 "bison_parser.cpp"
     break;
 
   case 96: /* column_constraint: PRIMARY KEY  */
-#line 820 "bison_parser.y"
+#line 830 "bison_parser.y"
                                 { (yyval.column_constraint_t) = ConstraintType::PrimaryKey; }
-#line 5392 "bison_parser.cpp"
+#line 5402 "bison_parser.cpp"
     break;
 
   case 97: /* column_constraint: UNIQUE  */
-#line 821 "bison_parser.y"
+#line 831 "bison_parser.y"
          { (yyval.column_constraint_t) = ConstraintType::Unique; }
-#line 5398 "bison_parser.cpp"
+#line 5408 "bison_parser.cpp"
     break;
 
   case 98: /* column_constraint: NULL  */
-#line 822 "bison_parser.y"
+#line 832 "bison_parser.y"
        { (yyval.column_constraint_t) = ConstraintType::Null; }
-#line 5404 "bison_parser.cpp"
+#line 5414 "bison_parser.cpp"
     break;
 
   case 99: /* column_constraint: NOT NULL  */
-#line 823 "bison_parser.y"
+#line 833 "bison_parser.y"
            { (yyval.column_constraint_t) = ConstraintType::NotNull; }
-#line 5410 "bison_parser.cpp"
+#line 5420 "bison_parser.cpp"
     break;
 
   case 100: /* table_constraint: PRIMARY KEY '(' ident_commalist ')'  */
-#line 825 "bison_parser.y"
+#line 835 "bison_parser.y"
                                                        { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::PrimaryKey, (yyvsp[-1].str_vec)); }
-#line 5416 "bison_parser.cpp"
+#line 5426 "bison_parser.cpp"
     break;
 
   case 101: /* table_constraint: UNIQUE '(' ident_commalist ')'  */
-#line 826 "bison_parser.y"
+#line 836 "bison_parser.y"
                                  { (yyval.table_constraint_t) = new TableConstraint(ConstraintType::Unique, (yyvsp[-1].str_vec)); }
-#line 5422 "bison_parser.cpp"
+#line 5432 "bison_parser.cpp"
     break;
 
   case 102: /* table_constraint: FOREIGN KEY '(' ident_commalist ')' references_spec  */
-#line 827 "bison_parser.y"
+#line 837 "bison_parser.y"
                                                       { (yyval.table_constraint_t) = new ForeignKeyConstraint((yyvsp[-2].str_vec), (yyvsp[0].references_spec_t)); }
-#line 5428 "bison_parser.cpp"
+#line 5438 "bison_parser.cpp"
     break;
 
   case 103: /* references_spec: REFERENCES table_name opt_column_list  */
-#line 829 "bison_parser.y"
+#line 839 "bison_parser.y"
                                                         { (yyval.references_spec_t) = new ReferencesSpecification((yyvsp[-1].table_name).schema, (yyvsp[-1].table_name).name, (yyvsp[0].str_vec)); }
-#line 5434 "bison_parser.cpp"
+#line 5444 "bison_parser.cpp"
     break;
 
   case 104: /* drop_statement: DROP TABLE opt_exists table_name  */
-#line 837 "bison_parser.y"
+#line 847 "bison_parser.y"
                                                   {
   (yyval.drop_stmt) = new DropStatement(kDropTable);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5445 "bison_parser.cpp"
+#line 5455 "bison_parser.cpp"
     break;
 
   case 105: /* drop_statement: DROP VIEW opt_exists table_name  */
-#line 843 "bison_parser.y"
+#line 853 "bison_parser.y"
                                   {
   (yyval.drop_stmt) = new DropStatement(kDropView);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.drop_stmt)->name = (yyvsp[0].table_name).name;
 }
-#line 5456 "bison_parser.cpp"
+#line 5466 "bison_parser.cpp"
     break;
 
   case 106: /* drop_statement: DEALLOCATE PREPARE IDENTIFIER  */
-#line 849 "bison_parser.y"
+#line 859 "bison_parser.y"
                                 {
   (yyval.drop_stmt) = new DropStatement(kDropPreparedStatement);
   (yyval.drop_stmt)->ifExists = false;
   (yyval.drop_stmt)->name = (yyvsp[0].sval);
 }
-#line 5466 "bison_parser.cpp"
+#line 5476 "bison_parser.cpp"
     break;
 
   case 107: /* drop_statement: DROP INDEX opt_exists IDENTIFIER  */
-#line 855 "bison_parser.y"
+#line 865 "bison_parser.y"
                                    {
   (yyval.drop_stmt) = new DropStatement(kDropIndex);
   (yyval.drop_stmt)->ifExists = (yyvsp[-1].bval);
   (yyval.drop_stmt)->indexName = (yyvsp[0].sval);
 }
-#line 5476 "bison_parser.cpp"
+#line 5486 "bison_parser.cpp"
     break;
 
   case 108: /* opt_exists: IF EXISTS  */
-#line 861 "bison_parser.y"
+#line 871 "bison_parser.y"
                        { (yyval.bval) = true; }
-#line 5482 "bison_parser.cpp"
+#line 5492 "bison_parser.cpp"
     break;
 
   case 109: /* opt_exists: %empty  */
-#line 862 "bison_parser.y"
+#line 872 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5488 "bison_parser.cpp"
+#line 5498 "bison_parser.cpp"
     break;
 
   case 110: /* alter_statement: ALTER TABLE opt_exists table_name alter_action  */
-#line 869 "bison_parser.y"
+#line 879 "bison_parser.y"
                                                                  {
   (yyval.alter_stmt) = new AlterStatement((yyvsp[-1].table_name).name, (yyvsp[0].alter_action_t));
   (yyval.alter_stmt)->ifTableExists = (yyvsp[-2].bval);
   (yyval.alter_stmt)->schema = (yyvsp[-1].table_name).schema;
 }
-#line 5498 "bison_parser.cpp"
+#line 5508 "bison_parser.cpp"
     break;
 
   case 111: /* alter_action: drop_action  */
-#line 875 "bison_parser.y"
+#line 885 "bison_parser.y"
                            { (yyval.alter_action_t) = (yyvsp[0].drop_action_t); }
-#line 5504 "bison_parser.cpp"
+#line 5514 "bison_parser.cpp"
     break;
 
   case 112: /* drop_action: DROP COLUMN opt_exists IDENTIFIER  */
-#line 877 "bison_parser.y"
+#line 887 "bison_parser.y"
                                                 {
   (yyval.drop_action_t) = new DropColumnAction((yyvsp[0].sval));
   (yyval.drop_action_t)->ifExists = (yyvsp[-1].bval);
 }
-#line 5513 "bison_parser.cpp"
+#line 5523 "bison_parser.cpp"
     break;
 
   case 113: /* delete_statement: DELETE FROM table_name opt_where  */
-#line 887 "bison_parser.y"
+#line 897 "bison_parser.y"
                                                     {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[-1].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[-1].table_name).name;
   (yyval.delete_stmt)->expr = (yyvsp[0].expr);
 }
-#line 5524 "bison_parser.cpp"
+#line 5534 "bison_parser.cpp"
     break;
 
   case 114: /* truncate_statement: TRUNCATE table_name  */
-#line 894 "bison_parser.y"
+#line 904 "bison_parser.y"
                                          {
   (yyval.delete_stmt) = new DeleteStatement();
   (yyval.delete_stmt)->schema = (yyvsp[0].table_name).schema;
   (yyval.delete_stmt)->tableName = (yyvsp[0].table_name).name;
 }
-#line 5534 "bison_parser.cpp"
+#line 5544 "bison_parser.cpp"
     break;
 
   case 115: /* insert_statement: INSERT INTO table_name opt_column_list VALUES '(' extended_literal_list ')'  */
-#line 905 "bison_parser.y"
+#line 915 "bison_parser.y"
                                                                                                {
   (yyval.insert_stmt) = new InsertStatement(kInsertValues);
   (yyval.insert_stmt)->schema = (yyvsp[-5].table_name).schema;
@@ -5542,11 +5552,11 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-4].str_vec);
   (yyval.insert_stmt)->values = (yyvsp[-1].expr_vec);
 }
-#line 5546 "bison_parser.cpp"
+#line 5556 "bison_parser.cpp"
     break;
 
   case 116: /* insert_statement: INSERT INTO table_name opt_column_list select_no_paren  */
-#line 912 "bison_parser.y"
+#line 922 "bison_parser.y"
                                                          {
   (yyval.insert_stmt) = new InsertStatement(kInsertSelect);
   (yyval.insert_stmt)->schema = (yyvsp[-2].table_name).schema;
@@ -5554,80 +5564,80 @@ yyreduce:
   (yyval.insert_stmt)->columns = (yyvsp[-1].str_vec);
   (yyval.insert_stmt)->select = (yyvsp[0].select_stmt);
 }
-#line 5558 "bison_parser.cpp"
+#line 5568 "bison_parser.cpp"
     break;
 
   case 117: /* opt_column_list: '(' ident_commalist ')'  */
-#line 920 "bison_parser.y"
+#line 930 "bison_parser.y"
                                           { (yyval.str_vec) = (yyvsp[-1].str_vec); }
-#line 5564 "bison_parser.cpp"
+#line 5574 "bison_parser.cpp"
     break;
 
   case 118: /* opt_column_list: %empty  */
-#line 921 "bison_parser.y"
+#line 931 "bison_parser.y"
               { (yyval.str_vec) = nullptr; }
-#line 5570 "bison_parser.cpp"
+#line 5580 "bison_parser.cpp"
     break;
 
   case 119: /* update_statement: UPDATE table_ref_name_no_alias SET update_clause_commalist opt_where  */
-#line 928 "bison_parser.y"
+#line 938 "bison_parser.y"
                                                                                         {
   (yyval.update_stmt) = new UpdateStatement();
   (yyval.update_stmt)->table = (yyvsp[-3].table);
   (yyval.update_stmt)->updates = (yyvsp[-1].update_vec);
   (yyval.update_stmt)->where = (yyvsp[0].expr);
 }
-#line 5581 "bison_parser.cpp"
+#line 5591 "bison_parser.cpp"
     break;
 
   case 120: /* update_clause_commalist: update_clause  */
-#line 935 "bison_parser.y"
+#line 945 "bison_parser.y"
                                         {
   (yyval.update_vec) = new std::vector<UpdateClause*>();
   (yyval.update_vec)->push_back((yyvsp[0].update_t));
 }
-#line 5590 "bison_parser.cpp"
+#line 5600 "bison_parser.cpp"
     break;
 
   case 121: /* update_clause_commalist: update_clause_commalist ',' update_clause  */
-#line 939 "bison_parser.y"
+#line 949 "bison_parser.y"
                                             {
   (yyvsp[-2].update_vec)->push_back((yyvsp[0].update_t));
   (yyval.update_vec) = (yyvsp[-2].update_vec);
 }
-#line 5599 "bison_parser.cpp"
+#line 5609 "bison_parser.cpp"
     break;
 
   case 122: /* update_clause: IDENTIFIER '=' expr  */
-#line 944 "bison_parser.y"
+#line 954 "bison_parser.y"
                                     {
   (yyval.update_t) = new UpdateClause();
   (yyval.update_t)->column = (yyvsp[-2].sval);
   (yyval.update_t)->value = (yyvsp[0].expr);
 }
-#line 5609 "bison_parser.cpp"
+#line 5619 "bison_parser.cpp"
     break;
 
   case 123: /* select_statement: opt_with_clause select_with_paren  */
-#line 954 "bison_parser.y"
+#line 964 "bison_parser.y"
                                                      {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5618 "bison_parser.cpp"
+#line 5628 "bison_parser.cpp"
     break;
 
   case 124: /* select_statement: opt_with_clause select_no_paren  */
-#line 958 "bison_parser.y"
+#line 968 "bison_parser.y"
                                   {
   (yyval.select_stmt) = (yyvsp[0].select_stmt);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-1].with_description_vec);
 }
-#line 5627 "bison_parser.cpp"
+#line 5637 "bison_parser.cpp"
     break;
 
   case 125: /* select_statement: opt_with_clause select_with_paren set_operator select_within_set_operation opt_order opt_limit  */
-#line 962 "bison_parser.y"
+#line 972 "bison_parser.y"
                                                                                                  {
   (yyval.select_stmt) = (yyvsp[-4].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5639,17 +5649,17 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[0].limit);
   (yyval.select_stmt)->withDescriptions = (yyvsp[-5].with_description_vec);
 }
-#line 5643 "bison_parser.cpp"
+#line 5653 "bison_parser.cpp"
     break;
 
   case 128: /* select_within_set_operation_no_parentheses: select_clause  */
-#line 976 "bison_parser.y"
+#line 986 "bison_parser.y"
                                                            { (yyval.select_stmt) = (yyvsp[0].select_stmt); }
-#line 5649 "bison_parser.cpp"
+#line 5659 "bison_parser.cpp"
     break;
 
   case 129: /* select_within_set_operation_no_parentheses: select_clause set_operator select_within_set_operation  */
-#line 977 "bison_parser.y"
+#line 987 "bison_parser.y"
                                                          {
   (yyval.select_stmt) = (yyvsp[-2].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5658,23 +5668,23 @@ yyreduce:
   (yyval.select_stmt)->setOperations->push_back((yyvsp[-1].set_operator_t));
   (yyval.select_stmt)->setOperations->back()->nestedSelectStatement = (yyvsp[0].select_stmt);
 }
-#line 5662 "bison_parser.cpp"
+#line 5672 "bison_parser.cpp"
     break;
 
   case 130: /* select_with_paren: '(' select_no_paren ')'  */
-#line 986 "bison_parser.y"
+#line 996 "bison_parser.y"
                                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5668 "bison_parser.cpp"
+#line 5678 "bison_parser.cpp"
     break;
 
   case 131: /* select_with_paren: '(' select_with_paren ')'  */
-#line 987 "bison_parser.y"
+#line 997 "bison_parser.y"
                             { (yyval.select_stmt) = (yyvsp[-1].select_stmt); }
-#line 5674 "bison_parser.cpp"
+#line 5684 "bison_parser.cpp"
     break;
 
   case 132: /* select_no_paren: select_clause opt_order opt_limit opt_locking_clause  */
-#line 989 "bison_parser.y"
+#line 999 "bison_parser.y"
                                                                        {
   (yyval.select_stmt) = (yyvsp[-3].select_stmt);
   (yyval.select_stmt)->order = (yyvsp[-2].order_vec);
@@ -5689,11 +5699,11 @@ yyreduce:
     (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
   }
 }
-#line 5693 "bison_parser.cpp"
+#line 5703 "bison_parser.cpp"
     break;
 
   case 133: /* select_no_paren: select_clause set_operator select_within_set_operation opt_order opt_limit opt_locking_clause  */
-#line 1003 "bison_parser.y"
+#line 1013 "bison_parser.y"
                                                                                                 {
   (yyval.select_stmt) = (yyvsp[-5].select_stmt);
   if ((yyval.select_stmt)->setOperations == nullptr) {
@@ -5705,59 +5715,59 @@ yyreduce:
   (yyval.select_stmt)->setOperations->back()->resultLimit = (yyvsp[-1].limit);
   (yyval.select_stmt)->lockings = (yyvsp[0].locking_clause_vec);
 }
-#line 5709 "bison_parser.cpp"
+#line 5719 "bison_parser.cpp"
     break;
 
   case 134: /* set_operator: set_type opt_all  */
-#line 1015 "bison_parser.y"
+#line 1025 "bison_parser.y"
                                 {
   (yyval.set_operator_t) = (yyvsp[-1].set_operator_t);
   (yyval.set_operator_t)->isAll = (yyvsp[0].bval);
 }
-#line 5718 "bison_parser.cpp"
+#line 5728 "bison_parser.cpp"
     break;
 
   case 135: /* set_type: UNION  */
-#line 1020 "bison_parser.y"
+#line 1030 "bison_parser.y"
                  {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetUnion;
 }
-#line 5727 "bison_parser.cpp"
+#line 5737 "bison_parser.cpp"
     break;
 
   case 136: /* set_type: INTERSECT  */
-#line 1024 "bison_parser.y"
+#line 1034 "bison_parser.y"
             {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetIntersect;
 }
-#line 5736 "bison_parser.cpp"
+#line 5746 "bison_parser.cpp"
     break;
 
   case 137: /* set_type: EXCEPT  */
-#line 1028 "bison_parser.y"
+#line 1038 "bison_parser.y"
          {
   (yyval.set_operator_t) = new SetOperation();
   (yyval.set_operator_t)->setType = SetType::kSetExcept;
 }
-#line 5745 "bison_parser.cpp"
+#line 5755 "bison_parser.cpp"
     break;
 
   case 138: /* opt_all: ALL  */
-#line 1033 "bison_parser.y"
+#line 1043 "bison_parser.y"
               { (yyval.bval) = true; }
-#line 5751 "bison_parser.cpp"
+#line 5761 "bison_parser.cpp"
     break;
 
   case 139: /* opt_all: %empty  */
-#line 1034 "bison_parser.y"
+#line 1044 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5757 "bison_parser.cpp"
+#line 5767 "bison_parser.cpp"
     break;
 
   case 140: /* select_clause: SELECT opt_top opt_distinct select_list opt_from_clause opt_where opt_group  */
-#line 1036 "bison_parser.y"
+#line 1046 "bison_parser.y"
                                                                                             {
   (yyval.select_stmt) = new SelectStatement();
   (yyval.select_stmt)->limit = (yyvsp[-5].limit);
@@ -5767,147 +5777,147 @@ yyreduce:
   (yyval.select_stmt)->whereClause = (yyvsp[-1].expr);
   (yyval.select_stmt)->groupBy = (yyvsp[0].group_t);
 }
-#line 5771 "bison_parser.cpp"
+#line 5781 "bison_parser.cpp"
     break;
 
   case 141: /* opt_distinct: DISTINCT  */
-#line 1046 "bison_parser.y"
+#line 1056 "bison_parser.y"
                         { (yyval.bval) = true; }
-#line 5777 "bison_parser.cpp"
+#line 5787 "bison_parser.cpp"
     break;
 
   case 142: /* opt_distinct: %empty  */
-#line 1047 "bison_parser.y"
+#line 1057 "bison_parser.y"
               { (yyval.bval) = false; }
-#line 5783 "bison_parser.cpp"
+#line 5793 "bison_parser.cpp"
     break;
 
   case 144: /* opt_from_clause: from_clause  */
-#line 1051 "bison_parser.y"
+#line 1061 "bison_parser.y"
                               { (yyval.table) = (yyvsp[0].table); }
-#line 5789 "bison_parser.cpp"
+#line 5799 "bison_parser.cpp"
     break;
 
   case 145: /* opt_from_clause: %empty  */
-#line 1052 "bison_parser.y"
+#line 1062 "bison_parser.y"
               { (yyval.table) = nullptr; }
-#line 5795 "bison_parser.cpp"
+#line 5805 "bison_parser.cpp"
     break;
 
   case 146: /* from_clause: FROM table_ref  */
-#line 1054 "bison_parser.y"
+#line 1064 "bison_parser.y"
                              { (yyval.table) = (yyvsp[0].table); }
-#line 5801 "bison_parser.cpp"
+#line 5811 "bison_parser.cpp"
     break;
 
   case 147: /* opt_where: WHERE expr  */
-#line 1056 "bison_parser.y"
+#line 1066 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[0].expr); }
-#line 5807 "bison_parser.cpp"
+#line 5817 "bison_parser.cpp"
     break;
 
   case 148: /* opt_where: %empty  */
-#line 1057 "bison_parser.y"
+#line 1067 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5813 "bison_parser.cpp"
+#line 5823 "bison_parser.cpp"
     break;
 
   case 149: /* opt_group: GROUP BY expr_list opt_having  */
-#line 1059 "bison_parser.y"
+#line 1069 "bison_parser.y"
                                           {
   (yyval.group_t) = new GroupByDescription();
   (yyval.group_t)->columns = (yyvsp[-1].expr_vec);
   (yyval.group_t)->having = (yyvsp[0].expr);
 }
-#line 5823 "bison_parser.cpp"
+#line 5833 "bison_parser.cpp"
     break;
 
   case 150: /* opt_group: %empty  */
-#line 1064 "bison_parser.y"
+#line 1074 "bison_parser.y"
               { (yyval.group_t) = nullptr; }
-#line 5829 "bison_parser.cpp"
+#line 5839 "bison_parser.cpp"
     break;
 
   case 151: /* opt_having: HAVING expr  */
-#line 1066 "bison_parser.y"
+#line 1076 "bison_parser.y"
                          { (yyval.expr) = (yyvsp[0].expr); }
-#line 5835 "bison_parser.cpp"
+#line 5845 "bison_parser.cpp"
     break;
 
   case 152: /* opt_having: %empty  */
-#line 1067 "bison_parser.y"
+#line 1077 "bison_parser.y"
               { (yyval.expr) = nullptr; }
-#line 5841 "bison_parser.cpp"
+#line 5851 "bison_parser.cpp"
     break;
 
   case 153: /* opt_order: ORDER BY order_list  */
-#line 1069 "bison_parser.y"
+#line 1079 "bison_parser.y"
                                 { (yyval.order_vec) = (yyvsp[0].order_vec); }
-#line 5847 "bison_parser.cpp"
+#line 5857 "bison_parser.cpp"
     break;
 
   case 154: /* opt_order: %empty  */
-#line 1070 "bison_parser.y"
+#line 1080 "bison_parser.y"
               { (yyval.order_vec) = nullptr; }
-#line 5853 "bison_parser.cpp"
+#line 5863 "bison_parser.cpp"
     break;
 
   case 155: /* order_list: order_desc  */
-#line 1072 "bison_parser.y"
+#line 1082 "bison_parser.y"
                         {
   (yyval.order_vec) = new std::vector<OrderDescription*>();
   (yyval.order_vec)->push_back((yyvsp[0].order));
 }
-#line 5862 "bison_parser.cpp"
+#line 5872 "bison_parser.cpp"
     break;
 
   case 156: /* order_list: order_list ',' order_desc  */
-#line 1076 "bison_parser.y"
+#line 1086 "bison_parser.y"
                             {
   (yyvsp[-2].order_vec)->push_back((yyvsp[0].order));
   (yyval.order_vec) = (yyvsp[-2].order_vec);
 }
-#line 5871 "bison_parser.cpp"
+#line 5881 "bison_parser.cpp"
     break;
 
   case 157: /* order_desc: expr opt_order_type opt_null_ordering  */
-#line 1081 "bison_parser.y"
+#line 1091 "bison_parser.y"
                                                    { (yyval.order) = new OrderDescription((yyvsp[-1].order_type), (yyvsp[-2].expr), (yyvsp[0].null_ordering_t)); }
-#line 5877 "bison_parser.cpp"
+#line 5887 "bison_parser.cpp"
     break;
 
   case 158: /* opt_order_type: ASC  */
-#line 1083 "bison_parser.y"
+#line 1093 "bison_parser.y"
                      { (yyval.order_type) = kOrderAsc; }
-#line 5883 "bison_parser.cpp"
+#line 5893 "bison_parser.cpp"
     break;
 
   case 159: /* opt_order_type: DESC  */
-#line 1084 "bison_parser.y"
+#line 1094 "bison_parser.y"
        { (yyval.order_type) = kOrderDesc; }
-#line 5889 "bison_parser.cpp"
+#line 5899 "bison_parser.cpp"
     break;
 
   case 160: /* opt_order_type: %empty  */
-#line 1085 "bison_parser.y"
+#line 1095 "bison_parser.y"
               { (yyval.order_type) = kOrderAsc; }
-#line 5895 "bison_parser.cpp"
+#line 5905 "bison_parser.cpp"
     break;
 
   case 161: /* opt_null_ordering: %empty  */
-#line 1087 "bison_parser.y"
+#line 1097 "bison_parser.y"
                                 { (yyval.null_ordering_t) = NullOrdering::Undefined; }
-#line 5901 "bison_parser.cpp"
+#line 5911 "bison_parser.cpp"
     break;
 
   case 162: /* opt_null_ordering: IDENTIFIER IDENTIFIER  */
-#line 1088 "bison_parser.y"
+#line 1098 "bison_parser.y"
                         {
   auto null_ordering = NullOrdering::Undefined;
-  if (strcasecmp((yyvsp[-1].sval), "nulls") == 0) {
-    if (strcasecmp((yyvsp[0].sval), "first") == 0) {
+  if (equalsIgnoreCase((yyvsp[-1].sval), "nulls")) {
+    if (equalsIgnoreCase((yyvsp[0].sval), "first")) {
       null_ordering = NullOrdering::First;
-    } else if (strcasecmp((yyvsp[0].sval), "last") == 0) {
+    } else if (equalsIgnoreCase((yyvsp[0].sval), "last")) {
       null_ordering = NullOrdering::Last;
     }
   }
@@ -5921,115 +5931,115 @@ yyreduce:
 
   (yyval.null_ordering_t) = null_ordering;
 }
-#line 5925 "bison_parser.cpp"
+#line 5935 "bison_parser.cpp"
     break;
 
   case 163: /* opt_top: TOP int_literal  */
-#line 1110 "bison_parser.y"
+#line 1120 "bison_parser.y"
                           { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5931 "bison_parser.cpp"
+#line 5941 "bison_parser.cpp"
     break;
 
   case 164: /* opt_top: %empty  */
-#line 1111 "bison_parser.y"
+#line 1121 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5937 "bison_parser.cpp"
+#line 5947 "bison_parser.cpp"
     break;
 
   case 165: /* opt_limit: LIMIT expr  */
-#line 1113 "bison_parser.y"
+#line 1123 "bison_parser.y"
                        { (yyval.limit) = new LimitDescription((yyvsp[0].expr), nullptr); }
-#line 5943 "bison_parser.cpp"
+#line 5953 "bison_parser.cpp"
     break;
 
   case 166: /* opt_limit: OFFSET expr  */
-#line 1114 "bison_parser.y"
+#line 1124 "bison_parser.y"
               { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5949 "bison_parser.cpp"
+#line 5959 "bison_parser.cpp"
     break;
 
   case 167: /* opt_limit: LIMIT expr OFFSET expr  */
-#line 1115 "bison_parser.y"
+#line 1125 "bison_parser.y"
                          { (yyval.limit) = new LimitDescription((yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 5955 "bison_parser.cpp"
+#line 5965 "bison_parser.cpp"
     break;
 
   case 168: /* opt_limit: LIMIT ALL  */
-#line 1116 "bison_parser.y"
+#line 1126 "bison_parser.y"
             { (yyval.limit) = new LimitDescription(nullptr, nullptr); }
-#line 5961 "bison_parser.cpp"
+#line 5971 "bison_parser.cpp"
     break;
 
   case 169: /* opt_limit: LIMIT ALL OFFSET expr  */
-#line 1117 "bison_parser.y"
+#line 1127 "bison_parser.y"
                         { (yyval.limit) = new LimitDescription(nullptr, (yyvsp[0].expr)); }
-#line 5967 "bison_parser.cpp"
+#line 5977 "bison_parser.cpp"
     break;
 
   case 170: /* opt_limit: %empty  */
-#line 1118 "bison_parser.y"
+#line 1128 "bison_parser.y"
               { (yyval.limit) = nullptr; }
-#line 5973 "bison_parser.cpp"
+#line 5983 "bison_parser.cpp"
     break;
 
   case 171: /* expr_list: expr_alias  */
-#line 1123 "bison_parser.y"
+#line 1133 "bison_parser.y"
                        {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 5982 "bison_parser.cpp"
+#line 5992 "bison_parser.cpp"
     break;
 
   case 172: /* expr_list: expr_list ',' expr_alias  */
-#line 1127 "bison_parser.y"
+#line 1137 "bison_parser.y"
                            {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 5991 "bison_parser.cpp"
+#line 6001 "bison_parser.cpp"
     break;
 
   case 173: /* opt_extended_literal_list: extended_literal_list  */
-#line 1133 "bison_parser.y"
+#line 1143 "bison_parser.y"
                                                   { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 5997 "bison_parser.cpp"
+#line 6007 "bison_parser.cpp"
     break;
 
   case 174: /* opt_extended_literal_list: %empty  */
-#line 1134 "bison_parser.y"
+#line 1144 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 6003 "bison_parser.cpp"
+#line 6013 "bison_parser.cpp"
     break;
 
   case 175: /* extended_literal_list: casted_extended_literal  */
-#line 1136 "bison_parser.y"
+#line 1146 "bison_parser.y"
                                                 {
   (yyval.expr_vec) = new std::vector<Expr*>();
   (yyval.expr_vec)->push_back((yyvsp[0].expr));
 }
-#line 6012 "bison_parser.cpp"
+#line 6022 "bison_parser.cpp"
     break;
 
   case 176: /* extended_literal_list: extended_literal_list ',' casted_extended_literal  */
-#line 1140 "bison_parser.y"
+#line 1150 "bison_parser.y"
                                                     {
   (yyvsp[-2].expr_vec)->push_back((yyvsp[0].expr));
   (yyval.expr_vec) = (yyvsp[-2].expr_vec);
 }
-#line 6021 "bison_parser.cpp"
+#line 6031 "bison_parser.cpp"
     break;
 
   case 178: /* casted_extended_literal: CAST '(' extended_literal AS column_type ')'  */
-#line 1145 "bison_parser.y"
+#line 1155 "bison_parser.y"
                                                                                           {
   (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t));
 }
-#line 6029 "bison_parser.cpp"
+#line 6039 "bison_parser.cpp"
     break;
 
   case 179: /* extended_literal: literal  */
-#line 1149 "bison_parser.y"
+#line 1159 "bison_parser.y"
                            {
   if ((yyvsp[0].expr)->type == ExprType::kExprParameter) {
     delete (yyvsp[0].expr);
@@ -6038,23 +6048,23 @@ yyreduce:
   }
   (yyval.expr) = (yyvsp[0].expr);
 }
-#line 6042 "bison_parser.cpp"
+#line 6052 "bison_parser.cpp"
     break;
 
   case 180: /* extended_literal: '-' num_literal  */
-#line 1157 "bison_parser.y"
+#line 1167 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6048 "bison_parser.cpp"
+#line 6058 "bison_parser.cpp"
     break;
 
   case 181: /* extended_literal: '-' interval_literal  */
-#line 1158 "bison_parser.y"
+#line 1168 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6054 "bison_parser.cpp"
+#line 6064 "bison_parser.cpp"
     break;
 
   case 182: /* expr_alias: expr opt_alias  */
-#line 1160 "bison_parser.y"
+#line 1170 "bison_parser.y"
                             {
   (yyval.expr) = (yyvsp[-1].expr);
   if ((yyvsp[0].alias_t)) {
@@ -6063,540 +6073,540 @@ yyreduce:
     delete (yyvsp[0].alias_t);
   }
 }
-#line 6067 "bison_parser.cpp"
+#line 6077 "bison_parser.cpp"
     break;
 
   case 189: /* operand: '(' expr ')'  */
-#line 1171 "bison_parser.y"
+#line 1181 "bison_parser.y"
                        { (yyval.expr) = (yyvsp[-1].expr); }
-#line 6073 "bison_parser.cpp"
+#line 6083 "bison_parser.cpp"
     break;
 
   case 199: /* operand: '(' select_no_paren ')'  */
-#line 1173 "bison_parser.y"
+#line 1183 "bison_parser.y"
                                          {
   (yyval.expr) = Expr::makeSelect((yyvsp[-1].select_stmt));
 }
-#line 6081 "bison_parser.cpp"
+#line 6091 "bison_parser.cpp"
     break;
 
   case 202: /* unary_expr: '-' operand  */
-#line 1179 "bison_parser.y"
+#line 1189 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpUnary(kOpUnaryMinus, (yyvsp[0].expr)); }
-#line 6087 "bison_parser.cpp"
+#line 6097 "bison_parser.cpp"
     break;
 
   case 203: /* unary_expr: NOT operand  */
-#line 1180 "bison_parser.y"
+#line 1190 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6093 "bison_parser.cpp"
+#line 6103 "bison_parser.cpp"
     break;
 
   case 204: /* unary_expr: operand ISNULL  */
-#line 1181 "bison_parser.y"
+#line 1191 "bison_parser.y"
                  { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-1].expr)); }
-#line 6099 "bison_parser.cpp"
+#line 6109 "bison_parser.cpp"
     break;
 
   case 205: /* unary_expr: operand IS NULL  */
-#line 1182 "bison_parser.y"
+#line 1192 "bison_parser.y"
                   { (yyval.expr) = Expr::makeOpUnary(kOpIsNull, (yyvsp[-2].expr)); }
-#line 6105 "bison_parser.cpp"
+#line 6115 "bison_parser.cpp"
     break;
 
   case 206: /* unary_expr: operand IS NOT NULL  */
-#line 1183 "bison_parser.y"
+#line 1193 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeOpUnary(kOpIsNull, (yyvsp[-3].expr))); }
-#line 6111 "bison_parser.cpp"
+#line 6121 "bison_parser.cpp"
     break;
 
   case 208: /* binary_expr: operand '-' operand  */
-#line 1185 "bison_parser.y"
+#line 1195 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpMinus, (yyvsp[0].expr)); }
-#line 6117 "bison_parser.cpp"
+#line 6127 "bison_parser.cpp"
     break;
 
   case 209: /* binary_expr: operand '+' operand  */
-#line 1186 "bison_parser.y"
+#line 1196 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPlus, (yyvsp[0].expr)); }
-#line 6123 "bison_parser.cpp"
+#line 6133 "bison_parser.cpp"
     break;
 
   case 210: /* binary_expr: operand '/' operand  */
-#line 1187 "bison_parser.y"
+#line 1197 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpSlash, (yyvsp[0].expr)); }
-#line 6129 "bison_parser.cpp"
+#line 6139 "bison_parser.cpp"
     break;
 
   case 211: /* binary_expr: operand '*' operand  */
-#line 1188 "bison_parser.y"
+#line 1198 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAsterisk, (yyvsp[0].expr)); }
-#line 6135 "bison_parser.cpp"
+#line 6145 "bison_parser.cpp"
     break;
 
   case 212: /* binary_expr: operand '%' operand  */
-#line 1189 "bison_parser.y"
+#line 1199 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpPercentage, (yyvsp[0].expr)); }
-#line 6141 "bison_parser.cpp"
+#line 6151 "bison_parser.cpp"
     break;
 
   case 213: /* binary_expr: operand '^' operand  */
-#line 1190 "bison_parser.y"
+#line 1200 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpCaret, (yyvsp[0].expr)); }
-#line 6147 "bison_parser.cpp"
+#line 6157 "bison_parser.cpp"
     break;
 
   case 214: /* binary_expr: operand LIKE operand  */
-#line 1191 "bison_parser.y"
+#line 1201 "bison_parser.y"
                        { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLike, (yyvsp[0].expr)); }
-#line 6153 "bison_parser.cpp"
+#line 6163 "bison_parser.cpp"
     break;
 
   case 215: /* binary_expr: operand NOT LIKE operand  */
-#line 1192 "bison_parser.y"
+#line 1202 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-3].expr), kOpNotLike, (yyvsp[0].expr)); }
-#line 6159 "bison_parser.cpp"
+#line 6169 "bison_parser.cpp"
     break;
 
   case 216: /* binary_expr: operand ILIKE operand  */
-#line 1193 "bison_parser.y"
+#line 1203 "bison_parser.y"
                         { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpILike, (yyvsp[0].expr)); }
-#line 6165 "bison_parser.cpp"
+#line 6175 "bison_parser.cpp"
     break;
 
   case 217: /* binary_expr: operand CONCAT operand  */
-#line 1194 "bison_parser.y"
+#line 1204 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpConcat, (yyvsp[0].expr)); }
-#line 6171 "bison_parser.cpp"
+#line 6181 "bison_parser.cpp"
     break;
 
   case 218: /* logic_expr: expr AND expr  */
-#line 1196 "bison_parser.y"
+#line 1206 "bison_parser.y"
                            { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpAnd, (yyvsp[0].expr)); }
-#line 6177 "bison_parser.cpp"
+#line 6187 "bison_parser.cpp"
     break;
 
   case 219: /* logic_expr: expr OR expr  */
-#line 1197 "bison_parser.y"
+#line 1207 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpOr, (yyvsp[0].expr)); }
-#line 6183 "bison_parser.cpp"
+#line 6193 "bison_parser.cpp"
     break;
 
   case 220: /* in_expr: operand IN '(' expr_list ')'  */
-#line 1199 "bison_parser.y"
+#line 1209 "bison_parser.y"
                                        { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].expr_vec)); }
-#line 6189 "bison_parser.cpp"
+#line 6199 "bison_parser.cpp"
     break;
 
   case 221: /* in_expr: operand NOT IN '(' expr_list ')'  */
-#line 1200 "bison_parser.y"
+#line 1210 "bison_parser.y"
                                    { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].expr_vec))); }
-#line 6195 "bison_parser.cpp"
+#line 6205 "bison_parser.cpp"
     break;
 
   case 222: /* in_expr: operand IN '(' select_no_paren ')'  */
-#line 1201 "bison_parser.y"
+#line 1211 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeInOperator((yyvsp[-4].expr), (yyvsp[-1].select_stmt)); }
-#line 6201 "bison_parser.cpp"
+#line 6211 "bison_parser.cpp"
     break;
 
   case 223: /* in_expr: operand NOT IN '(' select_no_paren ')'  */
-#line 1202 "bison_parser.y"
+#line 1212 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeInOperator((yyvsp[-5].expr), (yyvsp[-1].select_stmt))); }
-#line 6207 "bison_parser.cpp"
+#line 6217 "bison_parser.cpp"
     break;
 
   case 224: /* not_expr: NOT between_expr  */
-#line 1205 "bison_parser.y"
+#line 1215 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6213 "bison_parser.cpp"
+#line 6223 "bison_parser.cpp"
     break;
 
   case 225: /* not_expr: NOT in_expr  */
-#line 1206 "bison_parser.y"
+#line 1216 "bison_parser.y"
               { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6219 "bison_parser.cpp"
+#line 6229 "bison_parser.cpp"
     break;
 
   case 226: /* not_expr: NOT not_expr  */
-#line 1207 "bison_parser.y"
+#line 1217 "bison_parser.y"
                { (yyval.expr) = Expr::makeOpUnary(kOpNot, (yyvsp[0].expr)); }
-#line 6225 "bison_parser.cpp"
+#line 6235 "bison_parser.cpp"
     break;
 
   case 227: /* case_expr: CASE expr case_list END  */
-#line 1211 "bison_parser.y"
+#line 1221 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-2].expr), (yyvsp[-1].expr), nullptr); }
-#line 6231 "bison_parser.cpp"
+#line 6241 "bison_parser.cpp"
     break;
 
   case 228: /* case_expr: CASE expr case_list ELSE expr END  */
-#line 1212 "bison_parser.y"
+#line 1222 "bison_parser.y"
                                     { (yyval.expr) = Expr::makeCase((yyvsp[-4].expr), (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6237 "bison_parser.cpp"
+#line 6247 "bison_parser.cpp"
     break;
 
   case 229: /* case_expr: CASE case_list END  */
-#line 1213 "bison_parser.y"
+#line 1223 "bison_parser.y"
                      { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-1].expr), nullptr); }
-#line 6243 "bison_parser.cpp"
+#line 6253 "bison_parser.cpp"
     break;
 
   case 230: /* case_expr: CASE case_list ELSE expr END  */
-#line 1214 "bison_parser.y"
+#line 1224 "bison_parser.y"
                                { (yyval.expr) = Expr::makeCase(nullptr, (yyvsp[-3].expr), (yyvsp[-1].expr)); }
-#line 6249 "bison_parser.cpp"
+#line 6259 "bison_parser.cpp"
     break;
 
   case 231: /* case_list: WHEN expr THEN expr  */
-#line 1216 "bison_parser.y"
+#line 1226 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeCaseList(Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6255 "bison_parser.cpp"
+#line 6265 "bison_parser.cpp"
     break;
 
   case 232: /* case_list: case_list WHEN expr THEN expr  */
-#line 1217 "bison_parser.y"
+#line 1227 "bison_parser.y"
                                 { (yyval.expr) = Expr::caseListAppend((yyvsp[-4].expr), Expr::makeCaseListElement((yyvsp[-2].expr), (yyvsp[0].expr))); }
-#line 6261 "bison_parser.cpp"
+#line 6271 "bison_parser.cpp"
     break;
 
   case 233: /* exists_expr: EXISTS '(' select_no_paren ')'  */
-#line 1219 "bison_parser.y"
+#line 1229 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeExists((yyvsp[-1].select_stmt)); }
-#line 6267 "bison_parser.cpp"
+#line 6277 "bison_parser.cpp"
     break;
 
   case 234: /* exists_expr: NOT EXISTS '(' select_no_paren ')'  */
-#line 1220 "bison_parser.y"
+#line 1230 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeOpUnary(kOpNot, Expr::makeExists((yyvsp[-1].select_stmt))); }
-#line 6273 "bison_parser.cpp"
+#line 6283 "bison_parser.cpp"
     break;
 
   case 235: /* comp_expr: operand '=' operand  */
-#line 1222 "bison_parser.y"
+#line 1232 "bison_parser.y"
                                 { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6279 "bison_parser.cpp"
+#line 6289 "bison_parser.cpp"
     break;
 
   case 236: /* comp_expr: operand EQUALS operand  */
-#line 1223 "bison_parser.y"
+#line 1233 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpEquals, (yyvsp[0].expr)); }
-#line 6285 "bison_parser.cpp"
+#line 6295 "bison_parser.cpp"
     break;
 
   case 237: /* comp_expr: operand NOTEQUALS operand  */
-#line 1224 "bison_parser.y"
+#line 1234 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpNotEquals, (yyvsp[0].expr)); }
-#line 6291 "bison_parser.cpp"
+#line 6301 "bison_parser.cpp"
     break;
 
   case 238: /* comp_expr: operand '<' operand  */
-#line 1225 "bison_parser.y"
+#line 1235 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLess, (yyvsp[0].expr)); }
-#line 6297 "bison_parser.cpp"
+#line 6307 "bison_parser.cpp"
     break;
 
   case 239: /* comp_expr: operand '>' operand  */
-#line 1226 "bison_parser.y"
+#line 1236 "bison_parser.y"
                       { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreater, (yyvsp[0].expr)); }
-#line 6303 "bison_parser.cpp"
+#line 6313 "bison_parser.cpp"
     break;
 
   case 240: /* comp_expr: operand LESSEQ operand  */
-#line 1227 "bison_parser.y"
+#line 1237 "bison_parser.y"
                          { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpLessEq, (yyvsp[0].expr)); }
-#line 6309 "bison_parser.cpp"
+#line 6319 "bison_parser.cpp"
     break;
 
   case 241: /* comp_expr: operand GREATEREQ operand  */
-#line 1228 "bison_parser.y"
+#line 1238 "bison_parser.y"
                             { (yyval.expr) = Expr::makeOpBinary((yyvsp[-2].expr), kOpGreaterEq, (yyvsp[0].expr)); }
-#line 6315 "bison_parser.cpp"
+#line 6325 "bison_parser.cpp"
     break;
 
   case 242: /* function_expr: IDENTIFIER '(' ')' opt_window  */
-#line 1232 "bison_parser.y"
+#line 1242 "bison_parser.y"
                                               { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6321 "bison_parser.cpp"
+#line 6331 "bison_parser.cpp"
     break;
 
   case 243: /* function_expr: IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1233 "bison_parser.y"
+#line 1243 "bison_parser.y"
                                                        { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6327 "bison_parser.cpp"
+#line 6337 "bison_parser.cpp"
     break;
 
   case 244: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' ')' opt_window  */
-#line 1234 "bison_parser.y"
+#line 1244 "bison_parser.y"
                                                { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-3].sval), (yyvsp[-5].sval), new std::vector<Expr*>(), false, (yyvsp[0].window_description)); }
-#line 6333 "bison_parser.cpp"
+#line 6343 "bison_parser.cpp"
     break;
 
   case 245: /* function_expr: IDENTIFIER '.' IDENTIFIER '(' opt_distinct expr_list ')' opt_window  */
-#line 1235 "bison_parser.y"
+#line 1245 "bison_parser.y"
                                                                       { (yyval.expr) = Expr::makeFunctionRef((yyvsp[-5].sval), (yyvsp[-7].sval), (yyvsp[-2].expr_vec), (yyvsp[-3].bval), (yyvsp[0].window_description)); }
-#line 6339 "bison_parser.cpp"
+#line 6349 "bison_parser.cpp"
     break;
 
   case 246: /* opt_window: OVER '(' opt_partition opt_order opt_frame_clause ')'  */
-#line 1239 "bison_parser.y"
+#line 1249 "bison_parser.y"
                                                                    { (yyval.window_description) = new WindowDescription((yyvsp[-3].expr_vec), (yyvsp[-2].order_vec), (yyvsp[-1].frame_description)); }
-#line 6345 "bison_parser.cpp"
+#line 6355 "bison_parser.cpp"
     break;
 
   case 247: /* opt_window: %empty  */
-#line 1240 "bison_parser.y"
+#line 1250 "bison_parser.y"
               { (yyval.window_description) = nullptr; }
-#line 6351 "bison_parser.cpp"
+#line 6361 "bison_parser.cpp"
     break;
 
   case 248: /* opt_partition: PARTITION BY expr_list  */
-#line 1242 "bison_parser.y"
+#line 1252 "bison_parser.y"
                                        { (yyval.expr_vec) = (yyvsp[0].expr_vec); }
-#line 6357 "bison_parser.cpp"
+#line 6367 "bison_parser.cpp"
     break;
 
   case 249: /* opt_partition: %empty  */
-#line 1243 "bison_parser.y"
+#line 1253 "bison_parser.y"
               { (yyval.expr_vec) = nullptr; }
-#line 6363 "bison_parser.cpp"
+#line 6373 "bison_parser.cpp"
     break;
 
   case 250: /* opt_frame_clause: frame_type frame_bound  */
-#line 1248 "bison_parser.y"
+#line 1258 "bison_parser.y"
                                           { (yyval.frame_description) = new FrameDescription{(yyvsp[-1].frame_type), (yyvsp[0].frame_bound), new FrameBound{0, kCurrentRow, false}}; }
-#line 6369 "bison_parser.cpp"
+#line 6379 "bison_parser.cpp"
     break;
 
   case 251: /* opt_frame_clause: frame_type BETWEEN frame_bound AND frame_bound  */
-#line 1249 "bison_parser.y"
+#line 1259 "bison_parser.y"
                                                  { (yyval.frame_description) = new FrameDescription{(yyvsp[-4].frame_type), (yyvsp[-2].frame_bound), (yyvsp[0].frame_bound)}; }
-#line 6375 "bison_parser.cpp"
+#line 6385 "bison_parser.cpp"
     break;
 
   case 252: /* opt_frame_clause: %empty  */
-#line 1250 "bison_parser.y"
+#line 1260 "bison_parser.y"
               {
   (yyval.frame_description) = new FrameDescription{kRange, new FrameBound{0, kPreceding, true}, new FrameBound{0, kCurrentRow, false}};
 }
-#line 6383 "bison_parser.cpp"
+#line 6393 "bison_parser.cpp"
     break;
 
   case 253: /* frame_type: RANGE  */
-#line 1254 "bison_parser.y"
+#line 1264 "bison_parser.y"
                    { (yyval.frame_type) = kRange; }
-#line 6389 "bison_parser.cpp"
+#line 6399 "bison_parser.cpp"
     break;
 
   case 254: /* frame_type: ROWS  */
-#line 1255 "bison_parser.y"
+#line 1265 "bison_parser.y"
        { (yyval.frame_type) = kRows; }
-#line 6395 "bison_parser.cpp"
+#line 6405 "bison_parser.cpp"
     break;
 
   case 255: /* frame_type: GROUPS  */
-#line 1256 "bison_parser.y"
+#line 1266 "bison_parser.y"
          { (yyval.frame_type) = kGroups; }
-#line 6401 "bison_parser.cpp"
+#line 6411 "bison_parser.cpp"
     break;
 
   case 256: /* frame_bound: UNBOUNDED PRECEDING  */
-#line 1258 "bison_parser.y"
+#line 1268 "bison_parser.y"
                                   { (yyval.frame_bound) = new FrameBound{0, kPreceding, true}; }
-#line 6407 "bison_parser.cpp"
+#line 6417 "bison_parser.cpp"
     break;
 
   case 257: /* frame_bound: INTVAL PRECEDING  */
-#line 1259 "bison_parser.y"
+#line 1269 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kPreceding, false}; }
-#line 6413 "bison_parser.cpp"
+#line 6423 "bison_parser.cpp"
     break;
 
   case 258: /* frame_bound: UNBOUNDED FOLLOWING  */
-#line 1260 "bison_parser.y"
+#line 1270 "bison_parser.y"
                       { (yyval.frame_bound) = new FrameBound{0, kFollowing, true}; }
-#line 6419 "bison_parser.cpp"
+#line 6429 "bison_parser.cpp"
     break;
 
   case 259: /* frame_bound: INTVAL FOLLOWING  */
-#line 1261 "bison_parser.y"
+#line 1271 "bison_parser.y"
                    { (yyval.frame_bound) = new FrameBound{(yyvsp[-1].ival), kFollowing, false}; }
-#line 6425 "bison_parser.cpp"
+#line 6435 "bison_parser.cpp"
     break;
 
   case 260: /* frame_bound: CURRENT_ROW  */
-#line 1262 "bison_parser.y"
+#line 1272 "bison_parser.y"
               { (yyval.frame_bound) = new FrameBound{0, kCurrentRow, false}; }
-#line 6431 "bison_parser.cpp"
+#line 6441 "bison_parser.cpp"
     break;
 
   case 261: /* extract_expr: EXTRACT '(' datetime_field FROM expr ')'  */
-#line 1264 "bison_parser.y"
+#line 1274 "bison_parser.y"
                                                         { (yyval.expr) = Expr::makeExtract((yyvsp[-3].datetime_field), (yyvsp[-1].expr)); }
-#line 6437 "bison_parser.cpp"
+#line 6447 "bison_parser.cpp"
     break;
 
   case 262: /* cast_expr: CAST '(' expr AS column_type ')'  */
-#line 1266 "bison_parser.y"
+#line 1276 "bison_parser.y"
                                              { (yyval.expr) = Expr::makeCast((yyvsp[-3].expr), (yyvsp[-1].column_type_t)); }
-#line 6443 "bison_parser.cpp"
+#line 6453 "bison_parser.cpp"
     break;
 
   case 263: /* datetime_field: SECOND  */
-#line 1268 "bison_parser.y"
+#line 1278 "bison_parser.y"
                         { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6449 "bison_parser.cpp"
+#line 6459 "bison_parser.cpp"
     break;
 
   case 264: /* datetime_field: MINUTE  */
-#line 1269 "bison_parser.y"
+#line 1279 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6455 "bison_parser.cpp"
+#line 6465 "bison_parser.cpp"
     break;
 
   case 265: /* datetime_field: HOUR  */
-#line 1270 "bison_parser.y"
+#line 1280 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeHour; }
-#line 6461 "bison_parser.cpp"
+#line 6471 "bison_parser.cpp"
     break;
 
   case 266: /* datetime_field: DAY  */
-#line 1271 "bison_parser.y"
+#line 1281 "bison_parser.y"
       { (yyval.datetime_field) = kDatetimeDay; }
-#line 6467 "bison_parser.cpp"
+#line 6477 "bison_parser.cpp"
     break;
 
   case 267: /* datetime_field: MONTH  */
-#line 1272 "bison_parser.y"
+#line 1282 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6473 "bison_parser.cpp"
+#line 6483 "bison_parser.cpp"
     break;
 
   case 268: /* datetime_field: YEAR  */
-#line 1273 "bison_parser.y"
+#line 1283 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeYear; }
-#line 6479 "bison_parser.cpp"
+#line 6489 "bison_parser.cpp"
     break;
 
   case 269: /* datetime_field_plural: SECONDS  */
-#line 1275 "bison_parser.y"
+#line 1285 "bison_parser.y"
                                 { (yyval.datetime_field) = kDatetimeSecond; }
-#line 6485 "bison_parser.cpp"
+#line 6495 "bison_parser.cpp"
     break;
 
   case 270: /* datetime_field_plural: MINUTES  */
-#line 1276 "bison_parser.y"
+#line 1286 "bison_parser.y"
           { (yyval.datetime_field) = kDatetimeMinute; }
-#line 6491 "bison_parser.cpp"
+#line 6501 "bison_parser.cpp"
     break;
 
   case 271: /* datetime_field_plural: HOURS  */
-#line 1277 "bison_parser.y"
+#line 1287 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeHour; }
-#line 6497 "bison_parser.cpp"
+#line 6507 "bison_parser.cpp"
     break;
 
   case 272: /* datetime_field_plural: DAYS  */
-#line 1278 "bison_parser.y"
+#line 1288 "bison_parser.y"
        { (yyval.datetime_field) = kDatetimeDay; }
-#line 6503 "bison_parser.cpp"
+#line 6513 "bison_parser.cpp"
     break;
 
   case 273: /* datetime_field_plural: MONTHS  */
-#line 1279 "bison_parser.y"
+#line 1289 "bison_parser.y"
          { (yyval.datetime_field) = kDatetimeMonth; }
-#line 6509 "bison_parser.cpp"
+#line 6519 "bison_parser.cpp"
     break;
 
   case 274: /* datetime_field_plural: YEARS  */
-#line 1280 "bison_parser.y"
+#line 1290 "bison_parser.y"
         { (yyval.datetime_field) = kDatetimeYear; }
-#line 6515 "bison_parser.cpp"
+#line 6525 "bison_parser.cpp"
     break;
 
   case 277: /* array_expr: ARRAY '[' expr_list ']'  */
-#line 1284 "bison_parser.y"
+#line 1294 "bison_parser.y"
                                      { (yyval.expr) = Expr::makeArray((yyvsp[-1].expr_vec)); }
-#line 6521 "bison_parser.cpp"
+#line 6531 "bison_parser.cpp"
     break;
 
   case 278: /* array_index: operand '[' int_literal ']'  */
-#line 1286 "bison_parser.y"
+#line 1296 "bison_parser.y"
                                           {
   (yyval.expr) = Expr::makeArrayIndex((yyvsp[-3].expr), (yyvsp[-1].expr)->ival);
   delete (yyvsp[-1].expr);
 }
-#line 6530 "bison_parser.cpp"
+#line 6540 "bison_parser.cpp"
     break;
 
   case 279: /* between_expr: operand BETWEEN operand AND operand  */
-#line 1291 "bison_parser.y"
+#line 1301 "bison_parser.y"
                                                    { (yyval.expr) = Expr::makeBetween((yyvsp[-4].expr), (yyvsp[-2].expr), (yyvsp[0].expr)); }
-#line 6536 "bison_parser.cpp"
+#line 6546 "bison_parser.cpp"
     break;
 
   case 280: /* column_name: IDENTIFIER  */
-#line 1293 "bison_parser.y"
+#line 1303 "bison_parser.y"
                          { (yyval.expr) = Expr::makeColumnRef((yyvsp[0].sval)); }
-#line 6542 "bison_parser.cpp"
+#line 6552 "bison_parser.cpp"
     break;
 
   case 281: /* column_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1294 "bison_parser.y"
+#line 1304 "bison_parser.y"
                             { (yyval.expr) = Expr::makeColumnRef((yyvsp[-2].sval), (yyvsp[0].sval)); }
-#line 6548 "bison_parser.cpp"
+#line 6558 "bison_parser.cpp"
     break;
 
   case 282: /* column_name: '*'  */
-#line 1295 "bison_parser.y"
+#line 1305 "bison_parser.y"
       { (yyval.expr) = Expr::makeStar(); }
-#line 6554 "bison_parser.cpp"
+#line 6564 "bison_parser.cpp"
     break;
 
   case 283: /* column_name: IDENTIFIER '.' '*'  */
-#line 1296 "bison_parser.y"
+#line 1306 "bison_parser.y"
                      { (yyval.expr) = Expr::makeStar((yyvsp[-2].sval)); }
-#line 6560 "bison_parser.cpp"
+#line 6570 "bison_parser.cpp"
     break;
 
   case 291: /* string_literal: STRING  */
-#line 1300 "bison_parser.y"
+#line 1310 "bison_parser.y"
                         { (yyval.expr) = Expr::makeLiteral((yyvsp[0].sval)); }
-#line 6566 "bison_parser.cpp"
+#line 6576 "bison_parser.cpp"
     break;
 
   case 292: /* bool_literal: TRUE  */
-#line 1302 "bison_parser.y"
+#line 1312 "bison_parser.y"
                     { (yyval.expr) = Expr::makeLiteral(true); }
-#line 6572 "bison_parser.cpp"
+#line 6582 "bison_parser.cpp"
     break;
 
   case 293: /* bool_literal: FALSE  */
-#line 1303 "bison_parser.y"
+#line 1313 "bison_parser.y"
         { (yyval.expr) = Expr::makeLiteral(false); }
-#line 6578 "bison_parser.cpp"
+#line 6588 "bison_parser.cpp"
     break;
 
   case 294: /* num_literal: FLOATVAL  */
-#line 1305 "bison_parser.y"
+#line 1315 "bison_parser.y"
                        { (yyval.expr) = Expr::makeLiteral((yyvsp[0].fval)); }
-#line 6584 "bison_parser.cpp"
+#line 6594 "bison_parser.cpp"
     break;
 
   case 296: /* int_literal: INTVAL  */
-#line 1308 "bison_parser.y"
+#line 1318 "bison_parser.y"
                      { (yyval.expr) = Expr::makeLiteral((yyvsp[0].ival)); }
-#line 6590 "bison_parser.cpp"
+#line 6600 "bison_parser.cpp"
     break;
 
   case 297: /* null_literal: NULL  */
-#line 1310 "bison_parser.y"
+#line 1320 "bison_parser.y"
                     { (yyval.expr) = Expr::makeNullLiteral(); }
-#line 6596 "bison_parser.cpp"
+#line 6606 "bison_parser.cpp"
     break;
 
   case 298: /* date_literal: DATE STRING  */
-#line 1312 "bison_parser.y"
+#line 1322 "bison_parser.y"
                            {
   int chars_parsed{0};
   // If the whole string is parsed, chars_parsed points to the terminating null byte after the last character. Numbers
@@ -6609,17 +6619,17 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeDateLiteral((yyvsp[0].sval));
 }
-#line 6613 "bison_parser.cpp"
+#line 6623 "bison_parser.cpp"
     break;
 
   case 299: /* interval_literal: INTVAL duration_field  */
-#line 1325 "bison_parser.y"
+#line 1335 "bison_parser.y"
                                          { (yyval.expr) = Expr::makeIntervalLiteral((yyvsp[-1].ival), (yyvsp[0].datetime_field)); }
-#line 6619 "bison_parser.cpp"
+#line 6629 "bison_parser.cpp"
     break;
 
   case 300: /* interval_literal: INTERVAL STRING datetime_field  */
-#line 1326 "bison_parser.y"
+#line 1336 "bison_parser.y"
                                  {
   char* end{nullptr};
   errno = 0;
@@ -6633,11 +6643,11 @@ yyreduce:
   free((yyvsp[-1].sval));
   (yyval.expr) = Expr::makeIntervalLiteral(duration, (yyvsp[0].datetime_field));
 }
-#line 6637 "bison_parser.cpp"
+#line 6647 "bison_parser.cpp"
     break;
 
   case 301: /* interval_literal: INTERVAL STRING  */
-#line 1339 "bison_parser.y"
+#line 1349 "bison_parser.y"
                   {
   int chars_parsed{0};
   char* end{nullptr};
@@ -6654,17 +6664,17 @@ yyreduce:
   free((yyvsp[0].sval));
 
   DatetimeField unit;
-  if (strcasecmp(unit_string, "second") == 0 || strcasecmp(unit_string, "seconds") == 0) {
+  if (equalsIgnoreCase(unit_string, "second") || equalsIgnoreCase(unit_string, "seconds")) {
     unit = kDatetimeSecond;
-  } else if (strcasecmp(unit_string, "minute") == 0 || strcasecmp(unit_string, "minutes") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "minute") || equalsIgnoreCase(unit_string, "minutes")) {
     unit = kDatetimeMinute;
-  } else if (strcasecmp(unit_string, "hour") == 0 || strcasecmp(unit_string, "hours") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "hour") || equalsIgnoreCase(unit_string, "hours")) {
     unit = kDatetimeHour;
-  } else if (strcasecmp(unit_string, "day") == 0 || strcasecmp(unit_string, "days") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "day") || equalsIgnoreCase(unit_string, "days")) {
     unit = kDatetimeDay;
-  } else if (strcasecmp(unit_string, "month") == 0 || strcasecmp(unit_string, "months") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "month") || equalsIgnoreCase(unit_string, "months")) {
     unit = kDatetimeMonth;
-  } else if (strcasecmp(unit_string, "year") == 0 || strcasecmp(unit_string, "years") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "year") || equalsIgnoreCase(unit_string, "years")) {
     unit = kDatetimeYear;
   } else {
     yyerror(&yyloc, result, scanner, "Interval qualifier is unknown.");
@@ -6672,61 +6682,61 @@ yyreduce:
   }
   (yyval.expr) = Expr::makeIntervalLiteral(duration, unit);
 }
-#line 6676 "bison_parser.cpp"
+#line 6686 "bison_parser.cpp"
     break;
 
   case 302: /* param_expr: '?'  */
-#line 1374 "bison_parser.y"
+#line 1384 "bison_parser.y"
                  {
   (yyval.expr) = Expr::makeParameter(yylloc.total_column);
   (yyval.expr)->ival2 = yylloc.param_list->size();
   yylloc.param_list->push_back((yyval.expr));
 }
-#line 6686 "bison_parser.cpp"
+#line 6696 "bison_parser.cpp"
     break;
 
   case 304: /* table_ref: table_ref_commalist ',' table_ref_atomic  */
-#line 1383 "bison_parser.y"
+#line 1393 "bison_parser.y"
                                                                         {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   auto tbl = new TableRef(kTableCrossProduct);
   tbl->list = (yyvsp[-2].table_vec);
   (yyval.table) = tbl;
 }
-#line 6697 "bison_parser.cpp"
+#line 6707 "bison_parser.cpp"
     break;
 
   case 308: /* nonjoin_table_ref_atomic: '(' select_statement ')' opt_table_alias  */
-#line 1392 "bison_parser.y"
+#line 1402 "bison_parser.y"
                                                                                      {
   auto tbl = new TableRef(kTableSelect);
   tbl->select = (yyvsp[-2].select_stmt);
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6708 "bison_parser.cpp"
+#line 6718 "bison_parser.cpp"
     break;
 
   case 309: /* table_ref_commalist: table_ref_atomic  */
-#line 1399 "bison_parser.y"
+#line 1409 "bison_parser.y"
                                        {
   (yyval.table_vec) = new std::vector<TableRef*>();
   (yyval.table_vec)->push_back((yyvsp[0].table));
 }
-#line 6717 "bison_parser.cpp"
+#line 6727 "bison_parser.cpp"
     break;
 
   case 310: /* table_ref_commalist: table_ref_commalist ',' table_ref_atomic  */
-#line 1403 "bison_parser.y"
+#line 1413 "bison_parser.y"
                                            {
   (yyvsp[-2].table_vec)->push_back((yyvsp[0].table));
   (yyval.table_vec) = (yyvsp[-2].table_vec);
 }
-#line 6726 "bison_parser.cpp"
+#line 6736 "bison_parser.cpp"
     break;
 
   case 311: /* table_ref_name: table_name opt_table_alias  */
-#line 1408 "bison_parser.y"
+#line 1418 "bison_parser.y"
                                             {
   auto tbl = new TableRef(kTableName);
   tbl->schema = (yyvsp[-1].table_name).schema;
@@ -6734,215 +6744,215 @@ yyreduce:
   tbl->alias = (yyvsp[0].alias_t);
   (yyval.table) = tbl;
 }
-#line 6738 "bison_parser.cpp"
+#line 6748 "bison_parser.cpp"
     break;
 
   case 312: /* table_ref_name_no_alias: table_name  */
-#line 1416 "bison_parser.y"
+#line 1426 "bison_parser.y"
                                      {
   (yyval.table) = new TableRef(kTableName);
   (yyval.table)->schema = (yyvsp[0].table_name).schema;
   (yyval.table)->name = (yyvsp[0].table_name).name;
 }
-#line 6748 "bison_parser.cpp"
+#line 6758 "bison_parser.cpp"
     break;
 
   case 313: /* table_name: IDENTIFIER  */
-#line 1422 "bison_parser.y"
+#line 1432 "bison_parser.y"
                         {
   (yyval.table_name).schema = nullptr;
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6757 "bison_parser.cpp"
+#line 6767 "bison_parser.cpp"
     break;
 
   case 314: /* table_name: IDENTIFIER '.' IDENTIFIER  */
-#line 1426 "bison_parser.y"
+#line 1436 "bison_parser.y"
                             {
   (yyval.table_name).schema = (yyvsp[-2].sval);
   (yyval.table_name).name = (yyvsp[0].sval);
 }
-#line 6766 "bison_parser.cpp"
+#line 6776 "bison_parser.cpp"
     break;
 
   case 315: /* opt_index_name: IDENTIFIER  */
-#line 1431 "bison_parser.y"
+#line 1441 "bison_parser.y"
                             { (yyval.sval) = (yyvsp[0].sval); }
-#line 6772 "bison_parser.cpp"
+#line 6782 "bison_parser.cpp"
     break;
 
   case 316: /* opt_index_name: %empty  */
-#line 1432 "bison_parser.y"
+#line 1442 "bison_parser.y"
               { (yyval.sval) = nullptr; }
-#line 6778 "bison_parser.cpp"
+#line 6788 "bison_parser.cpp"
     break;
 
   case 318: /* table_alias: AS IDENTIFIER '(' ident_commalist ')'  */
-#line 1434 "bison_parser.y"
+#line 1444 "bison_parser.y"
                                                             { (yyval.alias_t) = new Alias((yyvsp[-3].sval), (yyvsp[-1].str_vec)); }
-#line 6784 "bison_parser.cpp"
+#line 6794 "bison_parser.cpp"
     break;
 
   case 320: /* opt_table_alias: %empty  */
-#line 1436 "bison_parser.y"
+#line 1446 "bison_parser.y"
                                             { (yyval.alias_t) = nullptr; }
-#line 6790 "bison_parser.cpp"
+#line 6800 "bison_parser.cpp"
     break;
 
   case 321: /* alias: AS IDENTIFIER  */
-#line 1438 "bison_parser.y"
+#line 1448 "bison_parser.y"
                       { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6796 "bison_parser.cpp"
+#line 6806 "bison_parser.cpp"
     break;
 
   case 322: /* alias: IDENTIFIER  */
-#line 1439 "bison_parser.y"
+#line 1449 "bison_parser.y"
              { (yyval.alias_t) = new Alias((yyvsp[0].sval)); }
-#line 6802 "bison_parser.cpp"
+#line 6812 "bison_parser.cpp"
     break;
 
   case 324: /* opt_alias: %empty  */
-#line 1441 "bison_parser.y"
+#line 1451 "bison_parser.y"
                                 { (yyval.alias_t) = nullptr; }
-#line 6808 "bison_parser.cpp"
+#line 6818 "bison_parser.cpp"
     break;
 
   case 325: /* opt_locking_clause: opt_locking_clause_list  */
-#line 1447 "bison_parser.y"
+#line 1457 "bison_parser.y"
                                              { (yyval.locking_clause_vec) = (yyvsp[0].locking_clause_vec); }
-#line 6814 "bison_parser.cpp"
+#line 6824 "bison_parser.cpp"
     break;
 
   case 326: /* opt_locking_clause: %empty  */
-#line 1448 "bison_parser.y"
+#line 1458 "bison_parser.y"
               { (yyval.locking_clause_vec) = nullptr; }
-#line 6820 "bison_parser.cpp"
+#line 6830 "bison_parser.cpp"
     break;
 
   case 327: /* opt_locking_clause_list: locking_clause  */
-#line 1450 "bison_parser.y"
+#line 1460 "bison_parser.y"
                                          {
   (yyval.locking_clause_vec) = new std::vector<LockingClause*>();
   (yyval.locking_clause_vec)->push_back((yyvsp[0].locking_t));
 }
-#line 6829 "bison_parser.cpp"
+#line 6839 "bison_parser.cpp"
     break;
 
   case 328: /* opt_locking_clause_list: opt_locking_clause_list locking_clause  */
-#line 1454 "bison_parser.y"
+#line 1464 "bison_parser.y"
                                          {
   (yyvsp[-1].locking_clause_vec)->push_back((yyvsp[0].locking_t));
   (yyval.locking_clause_vec) = (yyvsp[-1].locking_clause_vec);
 }
-#line 6838 "bison_parser.cpp"
+#line 6848 "bison_parser.cpp"
     break;
 
   case 329: /* locking_clause: FOR row_lock_mode opt_row_lock_policy  */
-#line 1459 "bison_parser.y"
+#line 1469 "bison_parser.y"
                                                        {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-1].lock_mode_t);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
   (yyval.locking_t)->tables = nullptr;
 }
-#line 6849 "bison_parser.cpp"
+#line 6859 "bison_parser.cpp"
     break;
 
   case 330: /* locking_clause: FOR row_lock_mode OF ident_commalist opt_row_lock_policy  */
-#line 1465 "bison_parser.y"
+#line 1475 "bison_parser.y"
                                                            {
   (yyval.locking_t) = new LockingClause();
   (yyval.locking_t)->rowLockMode = (yyvsp[-3].lock_mode_t);
   (yyval.locking_t)->tables = (yyvsp[-1].str_vec);
   (yyval.locking_t)->rowLockWaitPolicy = (yyvsp[0].lock_wait_policy_t);
 }
-#line 6860 "bison_parser.cpp"
+#line 6870 "bison_parser.cpp"
     break;
 
   case 331: /* row_lock_mode: UPDATE  */
-#line 1472 "bison_parser.y"
+#line 1482 "bison_parser.y"
                        { (yyval.lock_mode_t) = RowLockMode::ForUpdate; }
-#line 6866 "bison_parser.cpp"
+#line 6876 "bison_parser.cpp"
     break;
 
   case 332: /* row_lock_mode: NO KEY UPDATE  */
-#line 1473 "bison_parser.y"
+#line 1483 "bison_parser.y"
                 { (yyval.lock_mode_t) = RowLockMode::ForNoKeyUpdate; }
-#line 6872 "bison_parser.cpp"
+#line 6882 "bison_parser.cpp"
     break;
 
   case 333: /* row_lock_mode: SHARE  */
-#line 1474 "bison_parser.y"
+#line 1484 "bison_parser.y"
         { (yyval.lock_mode_t) = RowLockMode::ForShare; }
-#line 6878 "bison_parser.cpp"
+#line 6888 "bison_parser.cpp"
     break;
 
   case 334: /* row_lock_mode: KEY SHARE  */
-#line 1475 "bison_parser.y"
+#line 1485 "bison_parser.y"
             { (yyval.lock_mode_t) = RowLockMode::ForKeyShare; }
-#line 6884 "bison_parser.cpp"
+#line 6894 "bison_parser.cpp"
     break;
 
   case 335: /* opt_row_lock_policy: SKIP LOCKED  */
-#line 1477 "bison_parser.y"
+#line 1487 "bison_parser.y"
                                   { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::SkipLocked; }
-#line 6890 "bison_parser.cpp"
+#line 6900 "bison_parser.cpp"
     break;
 
   case 336: /* opt_row_lock_policy: NOWAIT  */
-#line 1478 "bison_parser.y"
+#line 1488 "bison_parser.y"
          { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::NoWait; }
-#line 6896 "bison_parser.cpp"
+#line 6906 "bison_parser.cpp"
     break;
 
   case 337: /* opt_row_lock_policy: %empty  */
-#line 1479 "bison_parser.y"
+#line 1489 "bison_parser.y"
               { (yyval.lock_wait_policy_t) = RowLockWaitPolicy::None; }
-#line 6902 "bison_parser.cpp"
+#line 6912 "bison_parser.cpp"
     break;
 
   case 339: /* opt_with_clause: %empty  */
-#line 1485 "bison_parser.y"
+#line 1495 "bison_parser.y"
                                             { (yyval.with_description_vec) = nullptr; }
-#line 6908 "bison_parser.cpp"
+#line 6918 "bison_parser.cpp"
     break;
 
   case 340: /* with_clause: WITH with_description_list  */
-#line 1487 "bison_parser.y"
+#line 1497 "bison_parser.y"
                                          { (yyval.with_description_vec) = (yyvsp[0].with_description_vec); }
-#line 6914 "bison_parser.cpp"
+#line 6924 "bison_parser.cpp"
     break;
 
   case 341: /* with_description_list: with_description  */
-#line 1489 "bison_parser.y"
+#line 1499 "bison_parser.y"
                                          {
   (yyval.with_description_vec) = new std::vector<WithDescription*>();
   (yyval.with_description_vec)->push_back((yyvsp[0].with_description_t));
 }
-#line 6923 "bison_parser.cpp"
+#line 6933 "bison_parser.cpp"
     break;
 
   case 342: /* with_description_list: with_description_list ',' with_description  */
-#line 1493 "bison_parser.y"
+#line 1503 "bison_parser.y"
                                              {
   (yyvsp[-2].with_description_vec)->push_back((yyvsp[0].with_description_t));
   (yyval.with_description_vec) = (yyvsp[-2].with_description_vec);
 }
-#line 6932 "bison_parser.cpp"
+#line 6942 "bison_parser.cpp"
     break;
 
   case 343: /* with_description: IDENTIFIER AS select_with_paren  */
-#line 1498 "bison_parser.y"
+#line 1508 "bison_parser.y"
                                                    {
   (yyval.with_description_t) = new WithDescription();
   (yyval.with_description_t)->alias = (yyvsp[-2].sval);
   (yyval.with_description_t)->select = (yyvsp[0].select_stmt);
 }
-#line 6942 "bison_parser.cpp"
+#line 6952 "bison_parser.cpp"
     break;
 
   case 344: /* join_clause: table_ref_atomic NATURAL JOIN nonjoin_table_ref_atomic  */
-#line 1508 "bison_parser.y"
+#line 1518 "bison_parser.y"
                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6950,11 +6960,11 @@ yyreduce:
   (yyval.table)->join->left = (yyvsp[-3].table);
   (yyval.table)->join->right = (yyvsp[0].table);
 }
-#line 6954 "bison_parser.cpp"
+#line 6964 "bison_parser.cpp"
     break;
 
   case 345: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic ON join_condition  */
-#line 1515 "bison_parser.y"
+#line 1525 "bison_parser.y"
                                                                          {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6963,11 +6973,11 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-2].table);
   (yyval.table)->join->condition = (yyvsp[0].expr);
 }
-#line 6967 "bison_parser.cpp"
+#line 6977 "bison_parser.cpp"
     break;
 
   case 346: /* join_clause: table_ref_atomic opt_join_type JOIN table_ref_atomic USING '(' ident_commalist ')'  */
-#line 1523 "bison_parser.y"
+#line 1533 "bison_parser.y"
                                                                                      {
   (yyval.table) = new TableRef(kTableJoin);
   (yyval.table)->join = new JoinDefinition();
@@ -6976,101 +6986,101 @@ yyreduce:
   (yyval.table)->join->right = (yyvsp[-4].table);
   (yyval.table)->join->namedColumns = (yyvsp[-1].str_vec);
 }
-#line 6980 "bison_parser.cpp"
+#line 6990 "bison_parser.cpp"
     break;
 
   case 347: /* opt_join_type: INNER  */
-#line 1532 "bison_parser.y"
+#line 1542 "bison_parser.y"
                       { (yyval.join_type) = kJoinInner; }
-#line 6986 "bison_parser.cpp"
+#line 6996 "bison_parser.cpp"
     break;
 
   case 348: /* opt_join_type: LEFT OUTER  */
-#line 1533 "bison_parser.y"
+#line 1543 "bison_parser.y"
              { (yyval.join_type) = kJoinLeft; }
-#line 6992 "bison_parser.cpp"
+#line 7002 "bison_parser.cpp"
     break;
 
   case 349: /* opt_join_type: LEFT  */
-#line 1534 "bison_parser.y"
+#line 1544 "bison_parser.y"
        { (yyval.join_type) = kJoinLeft; }
-#line 6998 "bison_parser.cpp"
+#line 7008 "bison_parser.cpp"
     break;
 
   case 350: /* opt_join_type: RIGHT OUTER  */
-#line 1535 "bison_parser.y"
+#line 1545 "bison_parser.y"
               { (yyval.join_type) = kJoinRight; }
-#line 7004 "bison_parser.cpp"
+#line 7014 "bison_parser.cpp"
     break;
 
   case 351: /* opt_join_type: RIGHT  */
-#line 1536 "bison_parser.y"
+#line 1546 "bison_parser.y"
         { (yyval.join_type) = kJoinRight; }
-#line 7010 "bison_parser.cpp"
+#line 7020 "bison_parser.cpp"
     break;
 
   case 352: /* opt_join_type: FULL OUTER  */
-#line 1537 "bison_parser.y"
+#line 1547 "bison_parser.y"
              { (yyval.join_type) = kJoinFull; }
-#line 7016 "bison_parser.cpp"
+#line 7026 "bison_parser.cpp"
     break;
 
   case 353: /* opt_join_type: OUTER  */
-#line 1538 "bison_parser.y"
+#line 1548 "bison_parser.y"
         { (yyval.join_type) = kJoinFull; }
-#line 7022 "bison_parser.cpp"
+#line 7032 "bison_parser.cpp"
     break;
 
   case 354: /* opt_join_type: FULL  */
-#line 1539 "bison_parser.y"
+#line 1549 "bison_parser.y"
        { (yyval.join_type) = kJoinFull; }
-#line 7028 "bison_parser.cpp"
+#line 7038 "bison_parser.cpp"
     break;
 
   case 355: /* opt_join_type: CROSS  */
-#line 1540 "bison_parser.y"
+#line 1550 "bison_parser.y"
         { (yyval.join_type) = kJoinCross; }
-#line 7034 "bison_parser.cpp"
+#line 7044 "bison_parser.cpp"
     break;
 
   case 356: /* opt_join_type: %empty  */
-#line 1541 "bison_parser.y"
+#line 1551 "bison_parser.y"
                        { (yyval.join_type) = kJoinInner; }
-#line 7040 "bison_parser.cpp"
+#line 7050 "bison_parser.cpp"
     break;
 
   case 358: /* opt_semicolon: ';'  */
-#line 1549 "bison_parser.y"
+#line 1559 "bison_parser.y"
                     { (yyloc).total_column = (yylsp[0]).total_column; }
-#line 7046 "bison_parser.cpp"
+#line 7056 "bison_parser.cpp"
     break;
 
   case 359: /* opt_semicolon: %empty  */
-#line 1550 "bison_parser.y"
+#line 1560 "bison_parser.y"
                                                     { (yyloc).total_column = yylloc.total_column; }
-#line 7052 "bison_parser.cpp"
+#line 7062 "bison_parser.cpp"
     break;
 
   case 360: /* ident_commalist: IDENTIFIER  */
-#line 1552 "bison_parser.y"
+#line 1562 "bison_parser.y"
                              {
   (yyval.str_vec) = new std::vector<char*>();
   (yyval.str_vec)->push_back((yyvsp[0].sval));
 }
-#line 7061 "bison_parser.cpp"
+#line 7071 "bison_parser.cpp"
     break;
 
   case 361: /* ident_commalist: ident_commalist ',' IDENTIFIER  */
-#line 1556 "bison_parser.y"
+#line 1566 "bison_parser.y"
                                  {
   (yyvsp[-2].str_vec)->push_back((yyvsp[0].sval));
   (yyval.str_vec) = (yyvsp[-2].str_vec);
 }
-#line 7070 "bison_parser.cpp"
+#line 7080 "bison_parser.cpp"
     break;
 
 
-#line 7074 "bison_parser.cpp"
+#line 7084 "bison_parser.cpp"
 
       default: break;
     }
@@ -7299,7 +7309,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 1562 "bison_parser.y"
+#line 1572 "bison_parser.y"
 
 
 /*********************************
diff --git a/src/parser/bison_parser.h b/src/parser/bison_parser.h
index ae59fa8..c94ee31 100644
--- a/src/parser/bison_parser.h
+++ b/src/parser/bison_parser.h
@@ -53,7 +53,7 @@
 extern int hsql_debug;
 #endif
 /* "%code requires" blocks.  */
-#line 41 "bison_parser.y"
+#line 51 "bison_parser.y"
 
 // %code requires block
 
@@ -273,7 +273,7 @@ extern int hsql_debug;
 #if ! defined HSQL_STYPE && ! defined HSQL_STYPE_IS_DECLARED
 union HSQL_STYPE
 {
-#line 107 "bison_parser.y"
+#line 117 "bison_parser.y"
 
   // clang-format on
   bool bval;
diff --git a/src/parser/bison_parser.y b/src/parser/bison_parser.y
index 7641d29..98e760e 100644
--- a/src/parser/bison_parser.y
+++ b/src/parser/bison_parser.y
@@ -24,6 +24,16 @@
 
   using namespace hsql;
 
+  // Compares ASCII texts. In contrast to strcasecmp, independent of the process locale.
+  static bool equalsIgnoreCase(const char* text, const char* other) {
+    const auto lower = [](char c) { return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c; };
+    while (*text && lower(*text) == lower(*other)) {
+      ++text;
+      ++other;
+    }
+    return lower(*text) == lower(*other);
+  }
+
   int yyerror(YYLTYPE * llocp, SQLParserResult * result, yyscan_t scanner, const char* msg) {
     result->setIsValid(false);
     result->setErrorDetails(strdup(msg), llocp->first_line, llocp->first_column);
@@ -534,11 +544,11 @@ import_statement : IMPORT FROM file_type FILE file_path INTO table_name {
 };
 
 file_type : IDENTIFIER {
-  if (strcasecmp($1, "csv") == 0) {
+  if (equalsIgnoreCase($1, "csv")) {
     $$ = kImportCSV;
-  } else if (strcasecmp($1, "tbl") == 0) {
+  } else if (equalsIgnoreCase($1, "tbl")) {
     $$ = kImportTbl;
-  } else if (strcasecmp($1, "binary") == 0 || strcasecmp($1, "bin") == 0) {
+  } else if (equalsIgnoreCase($1, "binary") || equalsIgnoreCase($1, "bin")) {
     $$ = kImportBinary;
   } else {
     free($1);
@@ -619,9 +629,9 @@ import_export_options : import_export_options ',' FORMAT file_type {
 }
 
 csv_option : IDENTIFIER STRING {
-  if (strcasecmp($1, "DELIMITER") == 0) {
+  if (equalsIgnoreCase($1, "DELIMITER")) {
     $$ = new std::pair<CsvOptionType, char*>(CsvOptionType::Delimiter, $2);
-  } else if (strcasecmp($1, "QUOTE") == 0) {
+  } else if (equalsIgnoreCase($1, "QUOTE")) {
     $$ = new std::pair<CsvOptionType, char*>(CsvOptionType::Quote, $2);
   } else {
     free($1);
@@ -695,7 +705,7 @@ create_statement : CREATE TABLE opt_not_exists table_name FROM IDENTIFIER FILE f
   $$->ifNotExists = $3;
   $$->schema = $4.schema;
   $$->tableName = $4.name;
-  if (strcasecmp($6, "tbl") != 0) {
+  if (!equalsIgnoreCase($6, "tbl")) {
     delete $$;
     free($6);
     free($8);
@@ -1087,10 +1097,10 @@ opt_order_type : ASC { $$ = kOrderAsc; }
 opt_null_ordering : /* empty */ { $$ = NullOrdering::Undefined; }
 | IDENTIFIER IDENTIFIER {
   auto null_ordering = NullOrdering::Undefined;
-  if (strcasecmp($1, "nulls") == 0) {
-    if (strcasecmp($2, "first") == 0) {
+  if (equalsIgnoreCase($1, "nulls")) {
+    if (equalsIgnoreCase($2, "first")) {
       null_ordering = NullOrdering::First;
-    } else if (strcasecmp($2, "last") == 0) {
+    } else if (equalsIgnoreCase($2, "last")) {
       null_ordering = NullOrdering::Last;
     }
   }
@@ -1352,17 +1362,17 @@ interval_literal : INTVAL duration_field { $$ = Expr::makeIntervalLiteral($1, $2
   free($2);
 
   DatetimeField unit;
-  if (strcasecmp(unit_string, "second") == 0 || strcasecmp(unit_string, "seconds") == 0) {
+  if (equalsIgnoreCase(unit_string, "second") || equalsIgnoreCase(unit_string, "seconds")) {
     unit = kDatetimeSecond;
-  } else if (strcasecmp(unit_string, "minute") == 0 || strcasecmp(unit_string, "minutes") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "minute") || equalsIgnoreCase(unit_string, "minutes")) {
     unit = kDatetimeMinute;
-  } else if (strcasecmp(unit_string, "hour") == 0 || strcasecmp(unit_string, "hours") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "hour") || equalsIgnoreCase(unit_string, "hours")) {
     unit = kDatetimeHour;
-  } else if (strcasecmp(unit_string, "day") == 0 || strcasecmp(unit_string, "days") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "day") || equalsIgnoreCase(unit_string, "days")) {
     unit = kDatetimeDay;
-  } else if (strcasecmp(unit_string, "month") == 0 || strcasecmp(unit_string, "months") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "month") || equalsIgnoreCase(unit_string, "months")) {
     unit = kDatetimeMonth;
-  } else if (strcasecmp(unit_string, "year") == 0 || strcasecmp(unit_string, "years") == 0) {
+  } else if (equalsIgnoreCase(unit_string, "year") || equalsIgnoreCase(unit_string, "years")) {
     unit = kDatetimeYear;
   } else {
     yyerror(&yyloc, result, scanner, "Interval qualifier is unknown.");
-- 
2.43.0


From ceaf6c465aa766404b7be3d1bf6566ae0a07e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 24/25] fix: initialise every field of DropStatement and
 SetOperation

---
 src/sql/statements.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/statements.cpp b/src/sql/statements.cpp
index c9e6f99..0847586 100644
--- a/src/sql/statements.cpp
+++ b/src/sql/statements.cpp
@@ -84,7 +84,7 @@ DeleteStatement::~DeleteStatement() {
 
 // DropStatement
 DropStatement::DropStatement(DropType type)
-    : SQLStatement(kStmtDrop), type(type), schema(nullptr), name(nullptr), indexName(nullptr) {}
+    : SQLStatement(kStmtDrop), type(type), ifExists(false), schema(nullptr), name(nullptr), indexName(nullptr) {}
 
 DropStatement::~DropStatement() {
   free(schema);
@@ -433,7 +433,8 @@ JoinDefinition::~JoinDefinition() {
   }
 }
 
-SetOperation::SetOperation() : nestedSelectStatement(nullptr), resultOrder(nullptr), resultLimit(nullptr) {}
+SetOperation::SetOperation()
+    : setType(kSetUnion), isAll(false), nestedSelectStatement(nullptr), resultOrder(nullptr), resultLimit(nullptr) {}
 
 SetOperation::~SetOperation() {
   delete nestedSelectStatement;
-- 
2.43.0


From 467f7cb602ee167fb8badbc6a33fb670402f6f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:07 +0000
Subject: [PATCH 25/25] fix: refuse texts that are too long for the lexer

The lexer takes the number of bytes as an int: a text of 4 GiB + 8 bytes
was parsed as its first 8 bytes, and one of 2 GiB ended the process.
---
 src/SQLParser.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/SQLParser.cpp b/src/SQLParser.cpp
index 8d300fb..3f3159c 100644
--- a/src/SQLParser.cpp
+++ b/src/SQLParser.cpp
@@ -1,16 +1,27 @@
 
 #include "SQLParser.h"
+#include <limits.h>
 #include <stdio.h>
+#include <string.h>
 #include <string>
 #include "parser/bison_parser.h"
 #include "parser/flex_lexer.h"
 
 namespace hsql {
 
+// The lexer counts bytes with int and adds two of its own.
+static bool isTooLong(const std::string& sql) { return sql.length() > INT_MAX - 2; }
+
 SQLParser::SQLParser() { fprintf(stderr, "SQLParser only has static methods atm! Do not initialize!\n"); }
 
 // static
 bool SQLParser::parse(const std::string& sql, SQLParserResult* result) {
+  if (isTooLong(sql)) {
+    result->setErrorDetails(strdup("SQL text is too long"), 0, 0);
+    result->setIsValid(false);
+    return true;
+  }
+
   yyscan_t scanner;
   YY_BUFFER_STATE state;
 
@@ -40,6 +51,11 @@ bool SQLParser::parseSQLString(const std::string& sql, SQLParserResult* result)
 
 // static
 bool SQLParser::tokenize(const std::string& sql, std::vector<int16_t>* tokens) {
+  if (isTooLong(sql)) {
+    fprintf(stderr, "SQLParser: SQL text is too long!\n");
+    return false;
+  }
+
   // Initialize the scanner.
   yyscan_t scanner;
   if (hsql_lex_init(&scanner)) {
-- 
2.43.0

