From 563a00129e4250eb567bc96a89c0eb00c90aa765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:58 +0000
Subject: [PATCH 001/106] fix: keep probe chains intact when removing from a
 wrapped hash table cluster

removeFromHashTable compared the desired index linearly, so when the cluster
wrapped past the end of the table it moved entries in front of their home slot
and lost them. In the type table this made types un-interned and emitted twice,
depending on ASLR.
---
 src/cxy/core/htable.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..fd7fd33 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -181,8 +181,12 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
     while (isBucketOccupied(hashTable, next_index)) {
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
-        // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        // If the next element is part of the collision chain (i.e. its desired
+        // index is not cyclically within (index, next_index]), move it
+        bool in_place = index < next_index
+                            ? (desired_index > index && desired_index <= next_index)
+                            : (desired_index > index || desired_index <= next_index);
+        if (!in_place) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From 8f36acad48a80f2e91cbe62a848cc81c2f9a0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:04 +0000
Subject: [PATCH 002/106] fix: set the sign of folded integer literals

Folding two integer literals to a negative result kept whatever was in the
isNegative byte, so -7/2 was emitted as 18446744073709551613.
---
 src/cxy/lang/middle/eval/literal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..37e8bed 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -90,7 +90,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
         }
         else {
             node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
+            node->intLiteral.isNegative = value < 0;
             if (node->intLiteral.isNegative)
                 node->intLiteral.value = (i64)value;
             else
-- 
2.43.0


From d67c87b3d3463daf051349c3922f3baadcdcbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:04 +0000
Subject: [PATCH 003/106] fix: emit float literals without losing precision

The generated C had them with 6 decimal digits.
---
 src/cxy/lang/backend/c/generate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..697560c 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -813,9 +813,10 @@ static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx),
-           "{f64}",
-           (FormatArg[]){{.f64 = node->floatLiteral.value}});
+    char literal[64];
+    // enough digits to get exactly the same value back
+    snprintf(literal, sizeof(literal), "%.17e", node->floatLiteral.value);
+    appendString(getState(ctx), literal);
 }
 
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From e45823b2e27288470a466e9764c53096332fd763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 004/106] fix: append unsigned integers to strings as unsigned

u64 values above the i64 maximum were printed as negative numbers.
---
 src/cxy/runtime/builtins.cxy | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..6bda8a7 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -643,8 +643,12 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
-        else #if (U.isInteger)
-            appendSignedInt(<i64>val)
+        else #if (U.isInteger) {
+            #if (U.isSigned)
+                appendSignedInt(<i64>val)
+            else
+                appendUnSignedInt(<u64>val)
+        }
         else #if (U.isFloat)
             appendFloat(val)
         else #if (U.isBoolean)
-- 
2.43.0


From 762ab91a7b5bce2152d5a1a8298b6f645ed04f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:35 +0000
Subject: [PATCH 005/106] fix: cast literals through groups, keep their sign,
 and stop after a cast error

Casting a parenthesised literal or an enum option aborted the compiler on an
assertion, <i8>200 produced 18446744073709551560 and a rejected cast of a
literal went on to assert.
---
 src/cxy/lang/middle/sema/cast.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..96c7786 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -10,10 +10,11 @@
 static void castIntegerLiteral(const Type *to, AstNode *expr)
 {
 #define CAST_INTEGER(TYP)                                                      \
-    if (expr->intLiteral.isNegative)                                           \
-        expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;             \
-    else                                                                       \
-        expr->intLiteral.uValue = (u64)(TYP)expr->intLiteral.uValue;
+    do {                                                                       \
+        const TYP casted = (TYP)expr->intLiteral.value;                        \
+        expr->intLiteral.isNegative = isSignedType(to) && (i64)casted < 0;     \
+        expr->intLiteral.value = (i64)casted;                                  \
+    } while (0)
 
     switch (to->primitive.id) {
     case prtU8:
@@ -50,6 +51,12 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
 {
     if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
         AstNode *expr = node->castExpr.expr;
+        while (nodeIs(expr, GroupExpr))
+            expr = expr->groupExpr.expr;
+        if (nodeIs(expr, UnaryExpr))
+            return;
+
+        const Type *from = expr->type;
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
@@ -73,8 +80,10 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
                 expr->intLiteral.isNegative = false;
                 expr->intLiteral.uValue = expr->boolLiteral.value ? 1 : 0;
             }
-            else if (isEnumLiteral(expr)) {
+            else if (typeIs(from, Enum)) {
+                expr->type = from;
                 i64 value = getEnumLiteralValue(expr);
+                expr->type = node->type;
                 expr->tag = astIntegerLit;
                 if (value < 0) {
                     expr->intLiteral.isNegative = true;
@@ -93,7 +102,15 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
         }
         else if (isFloatType(node->type)) {
             if (!nodeIs(expr, FloatLit)) {
-                expr->floatLiteral.value = (f64)integerLiteralValue(expr);
+                f64 value;
+                if (typeIs(from, Enum)) {
+                    expr->type = from;
+                    value = (f64)getEnumLiteralValue(expr);
+                    expr->type = node->type;
+                }
+                else
+                    value = nodeGetNumericLiteral(expr);
+                expr->floatLiteral.value = value;
                 expr->tag = astFloatLit;
             }
             if (node->type->primitive.id == prtF32)
@@ -123,6 +140,8 @@ void checkCastExpr(AstVisitor *visitor, AstNode *node)
                  &node->loc,
                  "type '{t}' cannot be cast to type '{t}'",
                  (FormatArg[]){{.t = expr}, {.t = target}});
+        node->type = ERROR_TYPE(ctx);
+        return;
     }
     node->type = target;
     if (typeIs(expr, Union)) {
-- 
2.43.0


From 580ad7c28421f37b21ed7f4419e2a3cde9e9a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:53 +0000
Subject: [PATCH 006/106] fix: keep nested prefix operators apart in the
 generated C

- -x was emitted as --x, which decremented x.
---
 src/cxy/lang/backend/c/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 697560c..db5497f 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -913,6 +913,9 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
             format(getState(ctx),
                    "{s}",
                    (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+            // `- -x` must not turn into the pre-decrement `--x`
+            if (nodeIs(node->unaryExpr.operand, UnaryExpr))
+                format(getState(ctx), " ", NULL);
         }
         astConstVisit(visitor, node->unaryExpr.operand);
     }
-- 
2.43.0


From dee35a3d475465ac982968d3ecfea964c76cff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:11 +0000
Subject: [PATCH 007/106] fix: give 64 bit literals a 64 bit type in the
 generated C

(1 as i64) << 40 was computed with a 32 bit C int.
---
 src/cxy/lang/backend/c/generate.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index db5497f..d2d9d96 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -796,18 +796,24 @@ static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    // a 64 bit literal must not be computed with as a C int
+    const Type *type = unwrapType(node->type, NULL);
+    cstring suffix = typeIs(type, Primitive) && isIntegerType(type) &&
+                             type->size == sizeof(u64)
+                         ? "ll"
+                         : "";
     if (node->intLiteral.isNegative)
         format(getState(ctx),
-               "{i64}",
-               (FormatArg[]){{.i64 = node->intLiteral.value}});
+               "{i64}{s}",
+               (FormatArg[]){{.i64 = node->intLiteral.value}, {.s = suffix}});
     else if (isUnsignedType(node->type))
         format(getState(ctx),
-               "{u64}u",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+               "{u64}u{s}",
+               (FormatArg[]){{.u64 = node->intLiteral.uValue}, {.s = suffix}});
     else
         format(getState(ctx),
-               "{u64}",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+               "{u64}{s}",
+               (FormatArg[]){{.u64 = node->intLiteral.uValue}, {.s = suffix}});
 }
 
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 2e4a30bfb3b6d1f49319c238c21932ad0e7bafac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 008/106] fix: leave casts of unfolded literal expressions to
 the backend

---
 src/cxy/lang/middle/sema/cast.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 96c7786..0af2777 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -53,7 +53,8 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
         AstNode *expr = node->castExpr.expr;
         while (nodeIs(expr, GroupExpr))
             expr = expr->groupExpr.expr;
-        if (nodeIs(expr, UnaryExpr))
+        if (nodeIs(expr, UnaryExpr) || nodeIs(expr, CastExpr) ||
+            nodeIs(expr, TypedExpr))
             return;
 
         const Type *from = expr->type;
-- 
2.43.0


From 077d61b69b79a7cd67f481b30fe4ce2a4709af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:03 +0000
Subject: [PATCH 009/106] fix: do not reject numeric character escapes because
 of a stale errno

---
 src/cxy/core/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..8a9c895 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -29,6 +29,7 @@ static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
 {
     char *next = NULL;
+    errno = 0;
     unsigned int ord = strtoul(ptr, &next, base);
     *res = ord;
     return ord <= 255 && !errno ? next - ptr : 0;
-- 
2.43.0


From d71ee0a2de3638fcad84e6dc0bdc4cfbb76a7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:47 +0000
Subject: [PATCH 010/106] fix: string and character literals keep escapes and
 non-ASCII characters; 1e10 is a float

---
 src/cxy/core/utils.c              | 42 ++++++++++++++++++++++++++++---
 src/cxy/lang/backend/c/generate.c | 23 +++++++++--------
 src/cxy/lang/frontend/lexer.c     | 27 +++++++++++++++-----
 3 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index 8a9c895..e291fd4 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -193,12 +193,46 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
             dst[j++] = '"';
             i++;
             break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
+        case '\'':
+            dst[j++] = '\'';
+            i++;
+            break;
+        case '\\':
+            dst[j++] = '\\';
+            i++;
+            break;
+        case 'x': {
+            u32 value = 0, digits = 0;
+            while (digits < 2 && (i + 1 + digits) < n &&
+                   isxdigit((u8)str[i + 1 + digits])) {
+                u8 c = str[i + 1 + digits];
+                value = value * 16 +
+                        (isdigit(c) ? c - '0' : tolower(c) - 'a' + 10);
+                digits++;
+            }
+            if (digits == 0) {
+                dst[j++] = '\\';
                 break;
             }
+            dst[j++] = (char)value;
+            i += 1 + digits;
+            break;
+        }
+        case '0':
+        case '1':
+        case '2':
+        case '3':
+        case '4':
+        case '5':
+        case '6':
+        case '7': {
+            u32 value = 0, digits = 0;
+            while (digits < 3 && (i + digits) < n && isodigit(str[i + digits]))
+                value = value * 8 + (str[i + digits++] - '0');
+            dst[j++] = (char)value;
+            i += digits;
+            break;
+        }
         default:
             dst[j++] = '\\';
             break;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index d2d9d96..7c6bc3c 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -781,16 +781,17 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
+    if (node->charLiteral.value == '\'')
+        appendString(getState(ctx), "'\\''");
+    else if (node->charLiteral.value >= 0x80)
+        // C has no portable character constant for it
         format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
-    else {
+               "{u32}",
+               (FormatArg[]){{.u32 = node->charLiteral.value}});
+    else
         format(getState(ctx),
                "'{cE}'",
                (FormatArg[]){{.c = node->charLiteral.value}});
-    }
 }
 
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
@@ -830,10 +831,12 @@ static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
-    while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
+    for (; *p != '\0'; p++) {
+        // bytes of multi-byte characters are copied as they are
+        if ((u8)*p >= 0x80)
+            append(getState(ctx), p, 1);
+        else
+            printUtf8(getState(ctx), *p, true);
     }
     format(getState(ctx), "\"", NULL);
 }
diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..04c51cf 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -151,6 +151,19 @@ static void skipUntilSpaceOrPunctuation(Lexer *lexer)
         advanceLexer(lexer);
 }
 
+// the exponent of a float literal that has no fractional part, e.g. 1e10
+static bool isExponent(Lexer *lexer)
+{
+    const LexerBuffer *b = lexer->buffer;
+    u64 i = b->filePos.byteOffset;
+    if (getCurChar(lexer) != 'e')
+        return false;
+    i++;
+    if (i < b->fileSize && (b->fileData[i] == '+' || b->fileData[i] == '-'))
+        i++;
+    return i < b->fileSize && isdigit(b->fileData[i]);
+}
+
 static bool acceptChar(Lexer *lexer, char c)
 {
     if (!isEofReached(lexer)) {
@@ -625,14 +638,16 @@ Token advanceLexer(Lexer *lexer)
                 skipChar(lexer);
 
             bool hasDot = false;
-            if (getCurChar(lexer) == '.' && peekNextChar(lexer) != '.' &&
-                peekNextChar(lexer) != '[' &&
-                !(lexer->flags & lxMaybeNotFloat)) {
-                skipChar(lexer);
+            if (!(lexer->flags & lxMaybeNotFloat) &&
+                ((getCurChar(lexer) == '.' && peekNextChar(lexer) != '.' &&
+                  peekNextChar(lexer) != '[') ||
+                 isExponent(lexer))) {
                 hasDot = true;
                 // Parse fractional part
-                while (isdigit(getCurChar(lexer)))
-                    skipChar(lexer);
+                if (acceptChar(lexer, '.')) {
+                    while (isdigit(getCurChar(lexer)))
+                        skipChar(lexer);
+                }
                 // Parse exponent
                 if (acceptChar(lexer, 'e')) {
                     // Accept `+`/`-` signs
-- 
2.43.0


From 68abfe7615cbcbb9c321c9a9f797d179ffdd0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:17 +0000
Subject: [PATCH 011/106] fix: stop lexing unterminated literals at the end of
 the file

---
 src/cxy/lang/frontend/lexer.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 04c51cf..97d8542 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -147,8 +147,9 @@ static inline bool isSpaceOrPunctuation(char c)
 
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
-        advanceLexer(lexer);
+    while (!isEofReached(lexer) &&
+           !isSpaceOrPunctuation(getCurChar(lexer)))
+        skipChar(lexer);
 }
 
 // the exponent of a float literal that has no fractional part, e.g. 1e10
@@ -490,7 +491,7 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
                 if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
@@ -533,7 +534,8 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '\'')) {
             const char *ptr = getCurPtr(lexer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
-- 
2.43.0


From c5a3902635a303e883b5838a9aa2bd17a206deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 012/106] fix: integer literals above the i64 range are u64

---
 src/cxy/lang/middle/sema/check.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..08b8988 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -746,8 +746,11 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
         node->type = getPrimitiveType(ctx->types, prtChar);
         break;
     case astIntegerLit:
-        node->type =
-            getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
+        if (!node->intLiteral.isNegative && node->intLiteral.uValue > INT64_MAX)
+            node->type = getPrimitiveType(ctx->types, prtU64);
+        else
+            node->type =
+                getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
         break;
     case astFloatLit:
         node->type = getPrimitiveType(ctx->types, prtF64);
-- 
2.43.0


From de02eb88e6470506fb4a53355b4acbaa4218a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:26 +0000
Subject: [PATCH 013/106] fix: reject integer literals that no type can hold

---
 src/cxy/lang/frontend/lexer.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 97d8542..995129d 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -5,6 +5,7 @@
 #include "token.h"
 
 #include <ctype.h>
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -253,6 +254,19 @@ static Token makeInvalidToken(Lexer *lexer,
     return token;
 }
 
+static Token parseIntLiteral(Lexer *lexer,
+                             const FilePos *begin,
+                             const char *digits,
+                             int base)
+{
+    errno = 0;
+    uintmax_t value = strtoumax(digits, NULL, base);
+    if (errno == ERANGE)
+        return makeInvalidToken(
+            lexer, begin, "integer literal is too large for any integer type");
+    return makeIntLiteral(lexer, begin, value);
+}
+
 static Token multilineString(Lexer *lexer)
 {
     FilePos begin = lexer->buffer->filePos;
@@ -598,8 +612,7 @@ Token advanceLexer(Lexer *lexer)
                             "binary digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 2));
+                    return parseIntLiteral(lexer, &begin, ptr, 2);
                 }
                 else if (acceptChar(lexer, 'x')) {
                     // Hexadecimal literal
@@ -615,8 +628,7 @@ Token advanceLexer(Lexer *lexer)
                             "hexadecimal digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 16));
+                    return parseIntLiteral(lexer, &begin, ptr, 16);
                 }
                 else if (acceptChar(lexer, 'o')) {
                     // Octal literal
@@ -630,8 +642,7 @@ Token advanceLexer(Lexer *lexer)
                             &begin,
                             "octal digit contains invalid characters");
                     }
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 8));
+                    return parseIntLiteral(lexer, &begin, ptr, 8);
                 }
             }
 
@@ -661,8 +672,7 @@ Token advanceLexer(Lexer *lexer)
             }
 
             return hasDot ? makeFloatLiteral(lexer, &begin, strtod(ptr, NULL))
-                          : makeIntLiteral(
-                                lexer, &begin, strtoumax(ptr, NULL, 10));
+                          : parseIntLiteral(lexer, &begin, ptr, 10);
         }
 
         skipChar(lexer);
-- 
2.43.0


From 82da7fdf3ad8ca76eac17bfedb9a3107c7b1388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 014/106] fix: accept switch case literals narrower than the
 condition

---
 src/cxy/lang/middle/sema/switch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..b25aa43 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -140,7 +140,9 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
 
     if (node->caseStmt.match) {
         const Type *match = checkType(visitor, node->caseStmt.match);
-        if (!isTypeAssignableFrom(match, cond)) {
+        // literals are as small as they can be, e.g. `case 1` has type i8
+        if (!isTypeAssignableFrom(match, cond) &&
+            !isTypeAssignableFrom(cond, match)) {
             logError(
                 ctx->L,
                 &node->caseStmt.match->loc,
-- 
2.43.0


From 256eca741c95dea14d83ced182beec34abc7c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 015/106] fix: a range loop stops at its end when the step
 jumps over it

---
 src/cxy/lang/middle/sema/for.c          |  2 +-
 src/cxy/lang/middle/simplify/simplify.c | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index da96f7f..990f9ab 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -336,7 +336,7 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (node->rangeExpr.step) {
-        const Type *step = checkType(visitor, node->rangeExpr.end);
+        const Type *step = checkType(visitor, node->rangeExpr.step);
         if (!isNumericType(step)) {
             logError(ctx->L,
                      &node->rangeExpr.start->loc,
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..e89cbf0 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -119,6 +119,26 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
+// The comparison that keeps a range loop going: a step that does not divide
+// the length of the range must not jump over its end
+static Operator getRangeLoopOperator(const AstNode *range)
+{
+    const AstNode *step = range->rangeExpr.step;
+    if (range->rangeExpr.down)
+        return opGt;
+    if (step == NULL)
+        return opLt;
+    while (nodeIs(step, GroupExpr))
+        step = step->groupExpr.expr;
+    if (nodeIs(step, IntegerLit))
+        return step->intLiteral.isNegative ? opGt : opLt;
+    if (nodeIs(step, UnaryExpr) && step->unaryExpr.op == opMinus &&
+        isLiteralExpr(step->unaryExpr.operand))
+        return opGt;
+    // direction not known
+    return opNe;
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -145,7 +165,7 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                               var,
                                               NULL,
                                               var->type),
-                       opNe,
+                       getRangeLoopOperator(range),
                        // range.end
                        range->rangeExpr.end,
                        NULL,
-- 
2.43.0


From 7e04e3bd77bba2e31e56e7901a7e32a84616bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:56 +0000
Subject: [PATCH 016/106] fix: switch and match cases honour ranges and case
 lists

---
 src/cxy/lang/backend/c/generate.c | 14 +++++++++++++-
 src/cxy/lang/frontend/parser.c    | 11 +++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 7c6bc3c..3f18021 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1609,13 +1609,25 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
             }
         }
         else {
-            astConstVisit(visitor, node->caseStmt.match);
+            const AstNode *match = node->caseStmt.match;
+            if (nodeIs(match, RangeExpr)) {
+                astConstVisit(visitor, match->rangeExpr.start);
+                format(getState(ctx), " ... ", NULL);
+                astConstVisit(visitor, match->rangeExpr.end);
+            }
+            else
+                astConstVisit(visitor, match);
             format(getState(ctx), ": {{{>}\n", NULL);
         }
     }
     else {
         format(getState(ctx), "default: {{{>}\n", NULL);
     }
+    if (body == NULL && node->next) {
+        // `case A, B => ...`, A shares the body of the next case
+        format(getState(ctx), "{<}\n}", NULL);
+        return;
+    }
     addDebugInfo(ctx, body);
     astConstVisit(visitor, body);
     if (nodeIs(body, BlockStmt))
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..69c5a7c 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2436,9 +2436,13 @@ static AstNode *caseStatement(Parser *P)
 
     if (!match(P, tokComma)) {
         consume0(P, tokFatArrow);
-        if (!check(P, tokCase, tokRBrace)) {
+        if (!check(P, tokCase, tokDefault, tokRBrace)) {
             body = statement(P, false);
         }
+        else {
+            // does nothing, `case X,` is the one that shares the next body
+            body = newAstNode(P, &tok, &(AstNode){.tag = astBlockStmt});
+        }
     }
 
     return newAstNode(P,
@@ -2503,9 +2507,12 @@ static AstNode *matchCaseStatement(Parser *P)
         // either case X { or case =>
         if (!check(P, tokLBrace))
             consume0(P, tokFatArrow);
-        if (!check(P, tokCase, tokRBrace)) {
+        if (!check(P, tokCase, tokElse, tokRBrace)) {
             body = statement(P, false);
         }
+        else {
+            body = newAstNode(P, &tok, &(AstNode){.tag = astBlockStmt});
+        }
     }
 
     return newAstNode(
-- 
2.43.0


From 8d9500e2ff56ac199ed4ed46b9d13966c02701dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:57 +0000
Subject: [PATCH 017/106] fix: break inside a switch or match leaves the
 enclosing loop

---
 src/cxy/lang/backend/c/generate.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 3f18021..d1d4c08 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -30,6 +30,8 @@ typedef struct CodegenContext {
     FormatState state;
     cstring loopUpdate;
     bool loopUpdateUsed;
+    cstring loopBreak;
+    bool inSwitch;
     bool hasTestCases;
     bool memTraceEnabled;
     bool inLoop;
@@ -1533,9 +1535,13 @@ static void visitWhileStmt(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring previousUpdate = ctx->loopUpdate;
     bool previousUpdateUsed = ctx->loopUpdateUsed;
+    cstring previousBreak = ctx->loopBreak;
     bool previousInLoop = ctx->inLoop;
+    bool previousInSwitch = ctx->inSwitch;
     ctx->loopUpdateUsed = false;
+    ctx->loopBreak = NULL;
     ctx->inLoop = true;
+    ctx->inSwitch = false;
     if (node->whileStmt.update)
         ctx->loopUpdate = makeAnonymousVariable(ctx->strings, "__update");
     else
@@ -1554,19 +1560,27 @@ static void visitWhileStmt(ConstAstVisitor *visitor, const AstNode *node)
     }
     astConstVisit(visitor, node->whileStmt.update);
     format(getState(ctx), "{<}\n}", NULL);
+    if (ctx->loopBreak)
+        format(
+            getState(ctx), "\n{s}:;\n", (FormatArg[]){{.s = ctx->loopBreak}});
     EosNl(ctx, node);
     ctx->loopUpdate = previousUpdate;
     ctx->loopUpdateUsed = previousUpdateUsed;
+    ctx->loopBreak = previousBreak;
     ctx->inLoop = previousInLoop;
+    ctx->inSwitch = previousInSwitch;
 }
 
 static void visitSwitchStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    bool previousInSwitch = ctx->inSwitch;
     format(getState(ctx), "switch (", NULL);
     astConstVisit(visitor, node->switchStmt.cond);
     format(getState(ctx), ") ", NULL);
+    ctx->inSwitch = true;
     generateMany(visitor, node->switchStmt.cases, "{{\n", "\n", NULL);
+    ctx->inSwitch = previousInSwitch;
     if (node->switchStmt.defaultCase == NULL) {
         format(getState(ctx),
                "\n"
@@ -1588,7 +1602,10 @@ static void visitMatchStmt(ConstAstVisitor *visitor, const AstNode *node)
     else
         format(getState(ctx), ".tag", NULL);
     format(getState(ctx), ") ", NULL);
+    bool previousInSwitch = ctx->inSwitch;
+    ctx->inSwitch = true;
     generateMany(visitor, node->switchStmt.cases, "{{\n", "\n", "\n}");
+    ctx->inSwitch = previousInSwitch;
     EosNl(ctx, node);
 }
 
@@ -1657,7 +1674,15 @@ static void visitBreakStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     addDebugInfo(ctx, node);
-    format(getState(ctx), "break;", NULL);
+    if (ctx->inLoop && ctx->inSwitch) {
+        // leaves the loop, a C break would only leave the switch
+        if (ctx->loopBreak == NULL)
+            ctx->loopBreak = makeAnonymousVariable(ctx->strings, "__break");
+        format(
+            getState(ctx), "goto {s};", (FormatArg[]){{.s = ctx->loopBreak}});
+    }
+    else
+        format(getState(ctx), "break;", NULL);
     EosNl(ctx, node);
 }
 
-- 
2.43.0


From f457a499f3d201557cf7d2dc40decdf6e09fbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 018/106] fix: literal ranges take the type of their widest
 bound

---
 src/cxy/lang/middle/sema/for.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 990f9ab..ac7216e 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -326,6 +326,12 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     const Type *end = checkType(visitor, node->rangeExpr.end);
+    if (!isTypeAssignableFrom(start, end) && isIntegerType(start) &&
+        isIntegerType(end) && isTypeAssignableFrom(end, start)) {
+        // the start literal is just smaller, e.g. 0..300
+        start = end;
+    }
+
     if (!isTypeAssignableFrom(start, end)) {
         logError(ctx->L,
                  &node->rangeExpr.end->loc,
-- 
2.43.0


From 09a2026b51a7fe2a47b2bf4585dbbda1d312ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 019/106] fix: match variable states by declaration order in
 the memory manager

---
 src/cxy/lang/middle/mem/manage.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..f8cec1e 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -105,16 +105,16 @@ static void insertVariableTrace(MemContext *ctx,
 static DynArray captureVariableState(MemContext *ctx)
 {
     DynArray vars = newDynArray(sizeof(VariableTrace));
-    // dynArrayFor(var, AstNode *, ctx->locals)
-    // {
-    //     VariableTrace *vt = findVariableTrace(ctx, *var);
-    //     csAssert0(vt);
-    //     pushOnDynArray(&vars, vt);
-    // }
-    HmapIterator it = hmapIterator(&ctx->variables);
-    VariableTrace *vt = NULL;
-    while ((vt = hmapNext(&it))) {
-        pushOnDynArray(&vars, vt);
+    // Captured in declaration order, captures taken at different times must
+    // line up for their states to be merged
+    dynArrayFor(scope, TraceScope, &ctx->scopes)
+    {
+        dynArrayFor(var, AstNode *, scope->locals)
+        {
+            VariableTrace *vt = findVariableTrace(ctx, *var);
+            csAssert0(vt);
+            pushOnDynArray(&vars, vt);
+        }
     }
     return vars;
 }
-- 
2.43.0


From 46814e758dffef0f328744d0bcd1cea24123739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 020/106] fix: a for loop over a string stops at the end of the
 string

---
 src/cxy/lang/middle/simplify/simplify.c | 68 ++++++++++++++++++-------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index e89cbf0..8c46883 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -257,25 +257,59 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                             : makePointerType(ctx->types, elem, flgNone));
     index->next = range;
 
-    AstNode *condition = makeBinaryExpr(
-        ctx->pool,
-        &range->loc,
-        flgNone,
-        makeResolvedIdentifier(ctx->pool,
-                               &range->loc,
-                               index->varDecl.name,
-                               0,
-                               index,
-                               NULL,
-                               index->type),
-        opLt,
-        makeUnsignedIntegerLiteral(ctx->pool,
+    AstNode *condition = NULL;
+    if (typeIs(rangeType, String)) {
+        // The length of a string is not part of its type, stop at the
+        // terminating character
+        condition = makeBinaryExpr(
+            ctx->pool,
+            &range->loc,
+            flgNone,
+            makeIndexExpr(ctx->pool,
+                          &range->loc,
+                          elem->flags,
+                          makeResolvedIdentifier(ctx->pool,
+                                                 &range->loc,
+                                                 range->varDecl.name,
+                                                 0,
+                                                 range,
+                                                 NULL,
+                                                 range->type),
+                          makeResolvedIdentifier(ctx->pool,
+                                                 &range->loc,
+                                                 index->varDecl.name,
+                                                 flgNone,
+                                                 index,
+                                                 NULL,
+                                                 index->type),
+                          NULL,
+                          elem),
+            opNe,
+            makeCharLiteral(ctx->pool, &range->loc, '\0', NULL, elem),
+            NULL,
+            getPrimitiveType(ctx->types, prtBool));
+    }
+    else {
+        condition = makeBinaryExpr(
+            ctx->pool,
+            &range->loc,
+            flgNone,
+            makeResolvedIdentifier(ctx->pool,
                                    &range->loc,
-                                   rangeType->array.len,
+                                   index->varDecl.name,
+                                   0,
+                                   index,
                                    NULL,
-                                   getPrimitiveType(ctx->types, prtU64)),
-        NULL,
-        getPrimitiveType(ctx->types, prtBool));
+                                   index->type),
+            opLt,
+            makeUnsignedIntegerLiteral(ctx->pool,
+                                       &range->loc,
+                                       rangeType->array.len,
+                                       NULL,
+                                       getPrimitiveType(ctx->types, prtU64)),
+            NULL,
+            getPrimitiveType(ctx->types, prtBool));
+    }
 
     AstNode *assign = makeExprStmt(
         ctx->pool,
-- 
2.43.0


From 79ce157709626deb2d00fed9240aeebfc3f88f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 021/106] fix: keep shadowed variables apart in deferred and
 cleanup code

---
 src/cxy/lang/middle/defer.c | 57 +++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index 56e9bd4..fd14345 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -23,6 +23,9 @@ typedef struct DeferContext {
     MemPool *pool;
     AstModifier root;
     BlockScopeContainer bsc;
+    // Parameters and variables visible at the current point in a function
+    DynArray locals;
+    bool inFunction;
 
     union {
         struct {
@@ -76,10 +79,50 @@ static void blockScopeSeal(DeferContext *ctx, BlockScope *scope)
     scope->flags |= bscSealed;
 }
 
+static inline cstring localName(const AstNode *node)
+{
+    if (nodeIs(node, FuncParamDecl))
+        return node->funcParam.name;
+    if (node->varDecl.name)
+        return node->varDecl.name;
+    return node->varDecl.names ? node->varDecl.names->ident.value : NULL;
+}
+
+static void visitVarDecl(AstVisitor *visitor, AstNode *node)
+{
+    DeferContext *ctx = getAstVisitorContext(visitor);
+    astVisit(visitor, node->varDecl.init);
+    cstring name = localName(node);
+    if (!ctx->inFunction || name == NULL)
+        return;
+
+    // Statements of an outer scope are copied into inner scopes that jump out
+    // of it, so within a function a variable must not hide another one
+    dynArrayFor(local, AstNode *, &ctx->locals)
+    {
+        if (localName(*local) == name) {
+            node->varDecl.name = makeAnonymousVariable(ctx->strings, name);
+            break;
+        }
+    }
+    pushOnDynArray(&ctx->locals, &node);
+}
+
+static void visitForStmt(AstVisitor *visitor, AstNode *node)
+{
+    DeferContext *ctx = getAstVisitorContext(visitor);
+    u64 locals = ctx->locals.size;
+    astVisit(visitor, node->forStmt.range);
+    astVisitManyNodes(visitor, node->forStmt.var);
+    astVisit(visitor, node->forStmt.body);
+    ctx->locals.size = locals;
+}
+
 static void visitDeferStmt(AstVisitor *visitor, AstNode *node)
 {
     DeferContext *ctx = getAstVisitorContext(visitor);
     BlockScope *scope = ctx->bsc.scope;
+    astVisit(visitor, node->deferStmt.stmt);
     pushOnDynArray(&scope->data, &node->deferStmt.stmt);
     node->tag = astNoop;
     clearAstBody(node);
@@ -90,6 +133,7 @@ static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
     DeferContext *ctx = getAstVisitorContext(visitor);
     BlockScope *scope = blockScopeContainerPush(&ctx->bsc, node, flgNone);
 
+    u64 locals = ctx->locals.size;
     AstNode *stmt = node->blockStmt.stmts;
     astModifierInit(&ctx->block, node);
     AstNodeList stmts = {};
@@ -105,6 +149,7 @@ static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
     }
 
     blockScopeContainerPop(&ctx->bsc);
+    ctx->locals.size = locals;
 
     for (stmt = node->blockStmt.stmts; stmt;) {
         AstNode *curr = stmt;
@@ -161,7 +206,15 @@ static void visitFuncDecl(AstVisitor *visitor, AstNode *node)
                                               node->type->func.paramsCount,
                                               hasFlag(node, Const));
     }
+    u64 locals = ctx->locals.size;
+    bool inFunction = ctx->inFunction;
+    AstNode *param = node->funcDecl.signature->params;
+    ctx->inFunction = true;
+    for (; param; param = param->next)
+        pushOnDynArray(&ctx->locals, &param);
     astVisit(visitor, node->funcDecl.body);
+    ctx->locals.size = locals;
+    ctx->inFunction = inFunction;
 }
 
 static void withSavedStack(Visitor func, AstVisitor *visitor, AstNode *node)
@@ -188,15 +241,19 @@ AstNode *simplifyDeferStatements(CompilerDriver *driver, AstNode *node)
         [astBlockStmt] = visitBlockStmt,
         [astReturnStmt] = visitReturnStmt,
         [astDeferStmt] = visitDeferStmt,
+        [astVarDecl] = visitVarDecl,
+        [astForStmt] = visitForStmt,
         [astFuncDecl] = visitFuncDecl,
         [astGenericDecl] = astVisitSkip,
         [astMacroDecl] = astVisitSkip
     }, .fallback = astVisitFallbackVisitAll, .dispatch = withSavedStack);
     // clang-format on
 
+    context.locals = newDynArray(sizeof(AstNode *));
     blockScopeContainerInit(&context.bsc, sizeof(AstNode *));
     astVisit(&visitor, node);
     blockScopeContainerDeinit(&context.bsc);
+    freeDynArray(&context.locals);
 
     return node;
 }
-- 
2.43.0


From 2d665fed69ec46d34c3f34ee4180fe3c7d41c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:35 +0000
Subject: [PATCH 022/106] fix: string pool interns by whole strings and numbers
 unnamed variables

---
 src/cxy/core/strpool.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..79ebfd2 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -26,13 +26,13 @@ typedef struct {
 static bool compareStrFind(const void *left, const void *right)
 {
     SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const char *pooled = *(char **)left;
+    return !strncmp(pooled, str->s, str->len) && pooled[str->len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    return !strcmp(*(char **)left, *(char **)right);
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
@@ -95,12 +95,12 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
     u64 len;
     if (prefix == NULL) {
         prefix = "cxy_anonymous_var";
-        len = 19;
+        len = strlen(prefix);
     }
     else
         len = strlen(prefix);
 
-    csAssert0(len < +MAX_ANONYMOUS_PREFIX_SIZE);
+    csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
     memcpy(variable, prefix, len);
     sprintf(&variable[len], "%" PRIu64, postfix++);
 
@@ -119,7 +119,7 @@ const char *makeStringConcat_(StrPool *pool, const char *s1, ...)
     const char *s = va_arg(ap, const char *);
     while (s) {
         size_t sz = strlen(s);
-        csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
+        csAssert0(len + sz < sizeof(variable));
         memcpy(&variable[len], s, sz);
         s = va_arg(ap, const char *);
         len += sz;
-- 
2.43.0


From a5298c2452d880bab5cc558616bb57c579ad888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:35 +0000
Subject: [PATCH 023/106] fix: pushing on a dynamic array returns the new
 element

---
 src/cxy/core/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/array.c b/src/cxy/core/array.c
index 698097a..5ff3a08 100644
--- a/src/cxy/core/array.c
+++ b/src/cxy/core/array.c
@@ -54,7 +54,7 @@ void *pushOnDynArrayExplicit(DynArray *array, const void *elem, size_t elemSize)
            elem,
            array->elemSize);
     array->size++;
-    return array->elems + array->elemSize * array->size;
+    return (void *)dynArrayElement(array, array->size - 1);
 }
 
 void copyDynArray(DynArray *dst, const DynArray *src)
-- 
2.43.0


From f34994f8a44750538fea8fd26a6d1ef2a1f61d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:35 +0000
Subject: [PATCH 024/106] fix: keep the header and the links of reallocated
 tracked memory

---
 src/cxy/core/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/mempool.c b/src/cxy/core/mempool.c
index 6fe365f..083bf04 100644
--- a/src/cxy/core/mempool.c
+++ b/src/cxy/core/mempool.c
@@ -94,12 +94,18 @@ void *reallocTrackedMem(MemPool *pool, void *ptr, size_t size)
 {
     TrackedMemoryItem *item = ((TrackedMemoryItem *)ptr) - 1;
     pool->trackedAllocations.allocated -= item->size;
-    item = reallocOrDie(item, size);
+    item = reallocOrDie(item, size + sizeof(TrackedMemoryItem));
     item->size = size;
     pool->trackedAllocations.allocated += size;
 
     if (item->prev)
         item->prev->next = item;
+    else
+        pool->trackedAllocations.first = item;
+    if (item->next)
+        item->next->prev = item;
+    else
+        pool->trackedAllocations.last = item;
     return item + 1;
 }
 
-- 
2.43.0


From d4cb59d8ce79cf0df49c0b9de719f2467b6cb756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:29 +0000
Subject: [PATCH 025/106] fix: hash maps keep one entry per key, survive
 clearing, and return the stored item

---
 src/cxy/core/hmap.c   | 18 +++++++++++-------
 src/cxy/core/htable.c |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..1d204f0 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -135,7 +135,7 @@ static HmapStatus hmapPutInternal(Hmap *self, void *data)
         }
 
         u64 p = hmapProbe(self, i, h);
-        if (j >= p) {
+        if (j > p) {
             memcpy((char *)self->sspace1,
                    (char *)self->data + i * hmapStep(self),
                    hmapStep(self));
@@ -162,6 +162,7 @@ void hmapInitWithCapacity(Hmap *self,
     self->hash = hash;
     self->equal = equal;
     self->nslots = hmapIdealSize(capacity);
+    self->nitems = 0;
 
     if (self->nslots > 0) {
         self->data = calloc(self->nslots, hmapStep(self));
@@ -175,12 +176,11 @@ void hmapInitWithCapacity(Hmap *self,
 
 void hmapDestroy(Hmap *self)
 {
-    if (self->data != NULL) {
-        free(self->data);
-        free(self->sspace0);
-        free(self->sspace1);
-        self->data = NULL;
-    }
+    free(self->data);
+    free(self->sspace0);
+    free(self->sspace1);
+    self->data = self->sspace0 = self->sspace1 = NULL;
+    self->nslots = self->nitems = 0;
 }
 
 void hmapClear(Hmap *self)
@@ -239,9 +239,13 @@ void hmapRemove(Hmap *self, void *data)
 
 HmapStatus hmapPut(Hmap *self, void *data)
 {
+    if (self->nslots == 0)
+        hmapRehash(self, hmapIdealSize(0));
     HmapStatus status = hmapPutInternal(self, data);
     if (status.s)
         hmapResizeMore(self);
+    // Items move while being inserted and when the map grows
+    status.f = hmapGet(self, data);
     return status;
 }
 
diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index fd7fd33..e40a1ca 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -63,7 +63,7 @@ static inline void rehashTable(HashTable *hashTable, size_t elemSize)
     if (new_capacity <= hashTable->capacity)
         new_capacity = hashTable->capacity * 2 + 1;
     void *new_elems = mallocOrDie(new_capacity * elemSize);
-    HashCode *new_hashes = callocOrDie(new_capacity, elemSize);
+    HashCode *new_hashes = callocOrDie(new_capacity, sizeof(HashCode));
     for (size_t i = 0, n = hashTable->capacity; i < n; ++i) {
         HashCode hash = hashTable->hashes[i];
         if (!isOccupiedHash(hash))
-- 
2.43.0


From 364ca84a99b76fec0c440256e599f3f870a41047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:43 +0000
Subject: [PATCH 026/106] fix: sized escaped strings in format, deletion and
 growth of string builders

---
 src/cxy/core/format.c | 9 +++++----
 src/cxy/core/sb.c     | 1 +
 src/cxy/core/sb.h     | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cxy/core/format.c b/src/cxy/core/format.c
index f10a767..5805ad2 100644
--- a/src/cxy/core/format.c
+++ b/src/cxy/core/format.c
@@ -174,14 +174,15 @@ static const char *formatArg(FormatState *state,
         else if (*ptr == 'E') {
             ptr++;
             u64 len = UINT64_MAX, i = 0;
-            if (*ptr == 'l')
+            if (*ptr == 'l') {
+                ptr++;
                 len = args[(*index)++].len;
+            }
             const char *p = arg->s;
-            while (*p != '\0' && i < len) {
+            while (i < len && p[i] != '\0') {
                 u32 ch = 0;
-                p += readChar(p, len - i, &ch);
+                i += readChar(&p[i], len - i, &ch);
                 format(state, "{cE}", (FormatArg[]){{.u32 = ch}});
-                i++;
             }
         }
         else
diff --git a/src/cxy/core/sb.c b/src/cxy/core/sb.c
index 90a1558..7d58325 100644
--- a/src/cxy/core/sb.c
+++ b/src/cxy/core/sb.c
@@ -48,6 +48,7 @@ Stack_str_8 wcharToStr(wchar chr)
 void stringBuilderGrow(StringBuilder *sb, u64 size)
 {
     if (sb->data == NULL) {
+        size = size ?: __cxy_builtins_string_builder_DEFAULT_CAPACITY;
         sb->data = mallocOrDie(size + 1);
         sb->capacity = size;
     }
diff --git a/src/cxy/core/sb.h b/src/cxy/core/sb.h
index f64c089..8034690 100644
--- a/src/cxy/core/sb.h
+++ b/src/cxy/core/sb.h
@@ -44,7 +44,7 @@ void stringBuilderDeinit(StringBuilder *sb);
 static attr(always_inline) void stringBuilderDelete(StringBuilder *sb)
 {
     if (sb) {
-        stringBuilderInit(sb);
+        stringBuilderDeinit(sb);
         free(sb);
     }
 }
-- 
2.43.0


From d9fe46590a8a33a1292bd7cc612459590aac8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 027/106] fix: resetting a memory pool forgets its cached
 memory

---
 src/cxy/core/mempool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/core/mempool.c b/src/cxy/core/mempool.c
index 083bf04..ff8b776 100644
--- a/src/cxy/core/mempool.c
+++ b/src/cxy/core/mempool.c
@@ -149,6 +149,8 @@ void resetMemPool(MemPool *mem_pool)
         block = block->next;
     }
     mem_pool->cur = mem_pool->first;
+    // Cached memory belongs to the blocks that are about to be re-used
+    memset(mem_pool->caches, 0, sizeof(mem_pool->caches));
 }
 
 void freeMemPool(MemPool *mem_pool)
-- 
2.43.0


From 666e714e9a7176d07350656ed8245ac1f38affed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 028/106] fix: a struct can name itself in the signatures of
 its members

---
 src/cxy/lang/middle/sema/struct.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 9ebd151..c641f7b 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -452,6 +452,7 @@ void checkStructDecl(AstVisitor *visitor, AstNode *node)
             ?: makeThisType(ctx->types, node->structDecl.name, flgNone);
     const Type *this = node->structDecl.thisType;
 
+    node->type = this;
     ctx->currentStruct = node;
     evaluateStructMembers(visitor, node);
     ctx->currentStruct = NULL;
-- 
2.43.0


From 7c03672f5a8ec8e836258d430dcda4c56497ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 029/106] fix: check every element of a member path after an
 index, call or tuple member

---
 src/cxy/lang/frontend/parser.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 69c5a7c..d4d46fc 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -655,8 +655,26 @@ static AstNode *member(Parser *P, const Token *begin, AstNode *operand)
     else if (flags & flgAnnotation) {
         member = parseIdentifier(P);
     }
-    else
+    else {
         member = parsePath(P);
+        // a longer path accesses one member after the other
+        for (AstNode *elem = member->path.elements;
+             nodeIs(member, Path) && elem->next;) {
+            AstNode *next = elem->next;
+            elem->next = NULL;
+            operand = newAstNode(
+                P,
+                begin,
+                &(AstNode){.tag = astMemberExpr,
+                           .flags = flags,
+                           .memberExpr = {.target = operand, .member = member}});
+            member = newAstNode(
+                P,
+                begin,
+                &(AstNode){.tag = astPath, .path = {.elements = next}});
+            elem = next;
+        }
+    }
 
     return newAstNode(
         P,
-- 
2.43.0


From 676b95fe77268d721acb14e50084f13ecebb151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 030/106] fix: initialize arrays from lists of values in the
 generated C

---
 src/cxy/lang/backend/c/generate.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index d1d4c08..e9b6e8e 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -868,6 +868,24 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+// C cannot initialize an array from another array, only from a list of values
+static void generateInitializer(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (!nodeIs(node, ArrayExpr)) {
+        astConstVisit(visitor, node);
+        return;
+    }
+    format(getState(ctx), "{{", NULL);
+    const AstNode *elem = node->arrayExpr.elements;
+    for (; elem; elem = elem->next) {
+        generateInitializer(visitor, elem);
+        if (elem->next)
+            format(getState(ctx), ", ", NULL);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
 static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
@@ -877,7 +895,7 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
         generateTypeName(ctx, getState(ctx), node->type);
         format(getState(ctx), ")", NULL);
     }
-    generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
+    generateInitializer(visitor, node);
 }
 
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1093,6 +1111,8 @@ static void visitFieldExpr(ConstAstVisitor *visitor, const AstNode *node)
                      isArrayType(node->type));
     if (nullInit)
         format(getState(ctx), " {{}", NULL);
+    else if (isArrayType(node->type))
+        generateInitializer(visitor, node->fieldExpr.value);
     else
         astConstVisit(visitor, node->fieldExpr.value);
 }
@@ -1121,7 +1141,10 @@ static void visitTupleExpr(ConstAstVisitor *visitor, const AstNode *node)
         if (i)
             format(getState(ctx), ",\n", NULL);
         format(getState(ctx), "._{u64} = ", (FormatArg[]){{.u64 = i}});
-        astConstVisit(visitor, member);
+        if (isArrayType(member->type))
+            generateInitializer(visitor, member);
+        else
+            astConstVisit(visitor, member);
     }
     format(getState(ctx), "{<}\n}", NULL);
 }
@@ -1709,6 +1732,8 @@ static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), " = ", NULL);
         if (nullInit)
             format(getState(ctx), " {{}", NULL);
+        else if (isArrayType(type))
+            generateInitializer(visitor, node->varDecl.init);
         else
             astConstVisit(visitor, node->varDecl.init);
     }
-- 
2.43.0


From 49c05be5fb60952e83b110bfa47576c2e06db5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:41 +0000
Subject: [PATCH 031/106] fix: print writes to standard output

---
 src/cxy/runtime/builtins.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 6bda8a7..ff7242f 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1233,10 +1233,10 @@ pub var SysConfNumProcs = sysconf(SC_NPROCESSORS_ONLN!);
 pub func print[T](data: &const T) {
     require!(T.isString, "type '{t}' is not a string, `print` only supports string types", #T)
     #if (T.isClass) {
-        write(0, data.data(), data.size())
+        write(1, data.data(), data.size())
     }
     else {
-        write(0, data, strlen(data))
+        write(1, data, strlen(data))
     }
 }
 
-- 
2.43.0


From c7b627b1fb761a0a240335042d451db9611e403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:26 +0000
Subject: [PATCH 032/106] fix: inheritance over several levels: members once,
 virtual overrides, super calls, order of types

---
 src/cxy/lang/backend/c/generate.c       | 76 +++++++++++++++++++++----
 src/cxy/lang/middle/sema/class.c        | 33 +++++++++--
 src/cxy/lang/middle/simplify/simplify.c |  5 ++
 3 files changed, 99 insertions(+), 15 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index e9b6e8e..e2dbe73 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -394,35 +394,91 @@ static void generateUntaggedUnionType(CodegenContext *ctx, const Type *type)
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
 
+// Names a type used in the type of a function. A class or struct only needs to
+// be declared for that, and might be waiting for this very function type.
+static void generateFunctionTypePart(CodegenContext *ctx,
+                                     const Type *type,
+                                     bool declare)
+{
+    const Type *chain[8] = {type};
+    u64 depth = 0;
+    while (depth < 7) {
+        const Type *it = chain[depth], *next = NULL;
+        if (typeIs(it, Reference))
+            next = it->reference.referred;
+        else if (typeIs(it, Pointer))
+            next = it->pointer.pointed;
+        else if (typeIs(it, This))
+            next = it->_this.that;
+        else if (typeIs(it, Wrapped))
+            next = it->wrapped.target;
+        if (next == NULL)
+            break;
+        chain[++depth] = next;
+    }
+
+    const Type *named = chain[depth];
+    bool isNamed = (typeIs(named, Class) || typeIs(named, Struct)) &&
+                   !hasFlag(named, Extern) && !named->retyped;
+    if (declare) {
+        if (!isNamed)
+            generateType(ctx, type);
+        else if (!named->generated) {
+            format(typeState(ctx), "struct ", NULL);
+            generateCustomTypeName(ctx,
+                                   typeState(ctx),
+                                   named,
+                                   typeIs(named, Class) ? "Class" : "Struct");
+            format(typeState(ctx), ";\n", NULL);
+        }
+        return;
+    }
+
+    bool saved[8];
+    for (u64 i = 0; isNamed && i <= depth; i++) {
+        saved[i] = chain[i]->generating;
+        ((Type *)chain[i])->generating = true;
+    }
+    generateTypeName(ctx, typeState(ctx), type);
+    for (u64 i = 0; isNamed && i <= depth; i++)
+        ((Type *)chain[i])->generating = saved[i];
+}
+
 static void generateFunctionType(CodegenContext *ctx, const Type *type)
 {
     const AstNode *decl = getTypeDecl(type);
-    generateType(ctx, type->func.retType);
-    bool isMember = false;
+    const Type *this_ = NULL;
+    generateFunctionTypePart(ctx, type->func.retType, true);
     if (decl && decl->funcDecl.this_) {
-        generateType(ctx, decl->funcDecl.this_->type);
-        isMember = true;
+        this_ = decl->funcDecl.this_->type;
+        generateFunctionTypePart(ctx, this_, true);
     }
 
     for (u64 i = 0; i < type->func.paramsCount; i++) {
-        generateType(ctx, type->func.params[i]);
+        generateFunctionTypePart(ctx, type->func.params[i], true);
     }
 
     format(typeState(ctx), "typedef ", NULL);
-    generateTypeName(ctx, typeState(ctx), type->func.retType);
+    generateFunctionTypePart(ctx, type->func.retType, false);
     format(typeState(ctx), "(*", NULL);
     generateCustomTypeName(ctx, typeState(ctx), type, "Func");
     format(typeState(ctx), ")(", NULL);
 
-    if (isMember)
-        generateTypeName(ctx, typeState(ctx), decl->funcDecl.this_->type);
+    if (this_)
+        generateFunctionTypePart(ctx, this_, false);
 
     for (u64 i = 0; i < type->func.paramsCount; i++) {
-        if (isMember || i != 0)
+        if (this_ || i != 0)
             format(typeState(ctx), ", ", NULL);
-        generateTypeName(ctx, typeState(ctx), type->func.params[i]);
+        generateFunctionTypePart(ctx, type->func.params[i], false);
     }
     format(typeState(ctx), ");\n", NULL);
+
+    generateType(ctx, type->func.retType);
+    if (this_)
+        generateType(ctx, this_);
+    for (u64 i = 0; i < type->func.paramsCount; i++)
+        generateType(ctx, type->func.params[i]);
 }
 
 static void generateType(CodegenContext *ctx, const Type *type)
diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..c20b1b9 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -22,10 +22,7 @@ static void inheritClassMembers(TypingContext *ctx,
                                 AstNodeList *into,
                                 AstNode *base)
 {
-    if (base->classDecl.base) {
-        inheritClassMembers(ctx, into, resolvePath(base->classDecl.base));
-    }
-
+    // the members of the base include those it inherits
     AstNode *member = base->classDecl.members;
     for (; member; member = member->next) {
         if (isInheritable(member)) {
@@ -118,6 +115,24 @@ static void evalClassMembers(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// Functions that override a virtual function are virtual
+static void markVirtualOverrides(AstNode *node, const Type *base)
+{
+    AstNode *member = base ? node->classDecl.members : NULL;
+    for (; member; member = member->next) {
+        if (!nodeIs(member, FuncDecl) || hasFlag(member, Static))
+            continue;
+        for (const Type *it = base; it; it = getTypeBase(it)) {
+            AstNode *overridden =
+                findMemberDeclInType(it, getDeclarationName(member));
+            if (nodeIs(overridden, FuncDecl)) {
+                member->flags |= overridden->flags & flgVirtual;
+                break;
+            }
+        }
+    }
+}
+
 static bool preCheckClassMembers(AstNode *node, NamedTypeMember *members)
 {
     AstNode *member = node->classDecl.members;
@@ -310,6 +325,8 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
     if (typeIs(node->type, Error))
         goto checkClassInterfacesError;
 
+    markVirtualOverrides(node, baseType);
+
     u8 isVirtual = hasFlag(node, Virtual);
     if (hasFlag(base, Virtual) && !isVirtual) {
         // Add - vtable: &Base_VTable member
@@ -377,8 +394,14 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
     }
     else if (vTableMember != NULL) {
         csAssert0(defaultInit);
+        vTableMember->structField.value = inheritanceBuildVTable(ctx, node);
         patchDefaultInitializer(
-            ctx, defaultInit, vTableMember, inheritanceBuildVTable(ctx, node));
+            ctx,
+            defaultInit,
+            vTableMember,
+            deepCloneAstNode(ctx->pool, vTableMember->structField.value));
+        // classes can extend this class too
+        node->flags |= flgVirtual;
     }
 
     if (retype) {
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 8c46883..c865e30 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -70,6 +70,11 @@ static bool isVirtualDispatch(const AstNode *target, const AstNode *member)
     const Type *type = stripReference(target->type);
     if (!isClassOrStructType(type))
         return false;
+    // super.func() calls the function of the base
+    const AstNode *object =
+        nodeIs(target, ReferenceOf) ? target->unaryExpr.operand : target;
+    if (nodeIs(object, Identifier) && object->ident.value == S_super)
+        return false;
     AstNode *decl = getTypeDecl(type), *func = getTypeDecl(member->type);
 
     return hasFlag(decl, Virtual) && hasFlag(func, Virtual);
-- 
2.43.0


From c7b04d4ad2310287c6649565a76cb8923a1fc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 033/106] fix: a ternary on the right of an assignment is part
 of the value assigned

---
 src/cxy/lang/frontend/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index d4d46fc..b6aebbb 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -866,6 +866,7 @@ static AstNode *prefix(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
 }
 
 static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
+static AstNode *ternary(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
 
 static AstNode *binary(Parser *P,
                        AstNode *lhs,
@@ -911,7 +912,7 @@ static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
     const Token tok = *current(P);
     if (isAssignmentOperator(tok.tag)) {
         advance(P);
-        AstNode *rhs = assign(P, parsePrimary);
+        AstNode *rhs = ternary(P, parsePrimary);
 
         return newAstNode_(
             P,
-- 
2.43.0


From eb8e79d2bec163ebeb55de060e90d7bdeb2217c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 034/106] fix: assignments keep what they assign alive,
 ternaries and deleted variables own their values

---
 src/cxy/lang/middle/mem/manage.c | 84 +++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 7 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index f8cec1e..c692a5d 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -70,6 +70,11 @@ static bool isLocalVariable(const AstNode *node)
 
 static bool isLeftValueExpr(const AstNode *node)
 {
+    if (nodeIs(node, GroupExpr))
+        return isLeftValueExpr(node->groupExpr.expr);
+    if (nodeIs(node, TernaryExpr))
+        return isLeftValueExpr(node->ternaryExpr.body) ||
+               isLeftValueExpr(node->ternaryExpr.otherwise);
     if (nodeIs(node, MemberExpr))
         return isLeftValueExpr(node->memberExpr.target);
     return nodeIsLeftValue(node);
@@ -303,14 +308,42 @@ static void transformToDropExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
+static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr);
+
+/// Copies the branches of a ternary expression that are left values
+static void copyTernaryBranches(MemContext *ctx, AstNode *node)
+{
+    AstNode *branches[] = {node->ternaryExpr.body,
+                           node->ternaryExpr.otherwise};
+    for (int i = 0; i < 2; i++) {
+        if (isLeftValueExpr(branches[i]))
+            transformToCopyExpr(
+                ctx, branches[i], deepCloneAstNode(ctx->pool, branches[i]));
+    }
+}
+
 static AstNode *makeCopyExpr(MemContext *ctx, AstNode *expr)
 {
+    AstNode *value = expr;
+    while (nodeIs(value, GroupExpr))
+        value = value->groupExpr.expr;
+    if (nodeIs(value, TernaryExpr)) {
+        copyTernaryBranches(ctx, value);
+        return expr;
+    }
     return makeBackendCallExpr(
         ctx->pool, &expr->loc, flgNone, bfiCopy, expr, expr->type);
 }
 
 static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
 {
+    AstNode *value = node;
+    while (nodeIs(value, GroupExpr))
+        value = value->groupExpr.expr;
+    if (nodeIs(value, TernaryExpr)) {
+        copyTernaryBranches(ctx, value);
+        return;
+    }
     node->tag = astBackendCall;
     node->backendCallExpr.func = bfiCopy;
     node->backendCallExpr.args = expr;
@@ -447,11 +480,13 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
             }
             return;
         case opDelete:
-            vt->state = vtsDropped;
-            if (nodeNeedsMemMgmt(node)) {
+            if (nodeNeedsMemMgmt(operand)) {
                 transformToDropExpr(ctx, node, operand);
+                node->backendCallExpr.state = vt->state;
+                vt->state = vtsDropped;
+                return;
             }
-            return;
+            break;
         default:
             break;
         }
@@ -469,6 +504,30 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/**
+ * The value that a variable or member held before being assigned can only be
+ * dropped after the new value has been evaluated
+ */
+static AstNode *evaluateBeforeDrop(MemContext *ctx, AstNode *expr)
+{
+    if (isLiteralExpr(expr))
+        return expr;
+    if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr))
+        expr = makeCopyExpr(ctx, expr);
+    AstNode *var =
+        makeVarDecl(ctx->pool,
+                    &expr->loc,
+                    flgTemporary,
+                    makeAnonymousVariable(ctx->strings, "_asg"),
+                    NULL,
+                    expr,
+                    NULL,
+                    expr->type);
+    astModifierAdd(&ctx->blockModifier, var);
+    return makeResolvedIdentifier(
+        ctx->pool, &expr->loc, var->_name, 0, var, NULL, var->type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -480,10 +539,14 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         astVisit(visitor, rhs);
         csAssert0(vt);
         if (vtNeedsMemMgmt(ctx, vt)) {
+            node->assignExpr.rhs = evaluateBeforeDrop(ctx, rhs);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
         }
+        else if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
+            node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
+        }
         if (nodeIs(rhs, NullLit)) {
             node->tag = astNoop;
             vt->state = isClassType(lhs->type) ? vtsDropped : vtsAssigned;
@@ -495,14 +558,14 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 
     lhs = node->assignExpr.lhs;
     if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
+        astVisit(visitor, node->assignExpr.rhs);
+        node->assignExpr.rhs = evaluateBeforeDrop(ctx, node->assignExpr.rhs);
         astModifierAdd(&ctx->blockModifier,
                        makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
-        astVisit(visitor, node->assignExpr.rhs);
-    }
-    else {
-        astVisitFallbackVisitAll(visitor, node);
+        return;
     }
 
+    astVisitFallbackVisitAll(visitor, node);
     AstNode *rhs = node->assignExpr.rhs;
     if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
         node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
@@ -532,6 +595,13 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
 
     for (; arg && param; arg = arg->next, param = param->next) {
         astVisit(visitor, arg);
+        AstNode *var = resolveIdentifier(arg);
+        if (nodeIs(var, VarDecl) && hasFlag(var, Temporary) &&
+            hasFlag(arg, Move) && nodeNeedsMemMgmt(param) &&
+            isLeftValueExpr(var->varDecl.init)) {
+            // The call takes over the value of this temporary variable
+            var->varDecl.init = makeCopyExpr(ctx, var->varDecl.init);
+        }
         if (isLeftValueExpr(arg) && nodeNeedsMemMgmt(param) &&
             !hasFlag(arg, Move))
             transformToCopyExpr(ctx, arg, deepCloneAstNode(ctx->pool, arg));
-- 
2.43.0


From 3b89c03b080235b13d627c181dc81c2a59415689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 035/106] fix: evaluate the bounds of a range loop once

---
 src/cxy/lang/middle/simplify/simplify.c | 39 +++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index c865e30..72f73cc 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -144,17 +144,42 @@ static Operator getRangeLoopOperator(const AstNode *range)
     return opNe;
 }
 
+// The bounds of a range are evaluated once, before the loop
+static AstNode *evaluateRangeOnce(SimplifyContext *ctx,
+                                  AstNodeList *vars,
+                                  AstNode *expr)
+{
+    if (expr == NULL || isLiteralExprExt(expr) || isSizeofExpr(expr))
+        return expr;
+    AstNode *var = insertAstNode(
+        vars,
+        makeVarDecl(ctx->pool,
+                    &expr->loc,
+                    flgTemporary | flgConst,
+                    makeAnonymousVariable(ctx->strings, "_range"),
+                    NULL,
+                    expr,
+                    NULL,
+                    expr->type));
+    return makeResolvedIdentifier(
+        ctx->pool, &expr->loc, var->_namedNode.name, 0, var, NULL, expr->type);
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *range = node->forStmt.range, *var = node->forStmt.var,
             *body = node->forStmt.body;
+    Operator op = getRangeLoopOperator(range);
+    AstNodeList vars = {};
+    AstNode *end = evaluateRangeOnce(ctx, &vars, range->rangeExpr.end);
+    AstNode *step = evaluateRangeOnce(ctx, &vars, range->rangeExpr.step);
 
     // var x = range.start
     var->varDecl.init = range->rangeExpr.start;
     var->parentScope = body;
     // while (x < range.end) { ...; x += range.step; }
-    var->next = makeWhileStmt(
+    AstNode *loop = makeWhileStmt(
         ctx->pool,
         &node->loc,
         node->flags,
@@ -170,9 +195,9 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                               var,
                                               NULL,
                                               var->type),
-                       getRangeLoopOperator(range),
+                       op,
                        // range.end
-                       range->rangeExpr.end,
+                       end,
                        NULL,
                        getPrimitiveType(ctx->types, prtBool)),
         // ...
@@ -198,18 +223,20 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                        var->type),
                 opAdd,
                 // range.step
-                range->rangeExpr.step
+                step
                     ?: makeIntegerLiteral(
                            ctx->pool, &range->loc, 1, NULL, range->type),
                 NULL,
                 range->type),
             NULL,
             range->type));
-    body->parentScope = var->next;
+    body->parentScope = loop;
+    insertAstNode(&vars, loop);
+    var->next = vars.first;
     node->tag = astBlockStmt;
     node->flags = flgScoping;
     node->blockStmt.stmts = var;
-    node->blockStmt.last = var->next;
+    node->blockStmt.last = loop;
     astVisit(visitor, node);
 }
 
-- 
2.43.0


From e5904c93e2db1e1bc5e59cc58cd55b41e812d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 036/106] fix: evaluate the arguments of calls in conditional
 operands only when the operand is evaluated

---
 src/cxy/lang/middle/simplify/simplify.c | 60 +++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 72f73cc..3642d1e 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -916,8 +916,54 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/**
+ * Simplifies an expression that is not always evaluated. The temporary
+ * variables it needs are declared within a block expression of its own, so that
+ * they are only evaluated when the expression is
+ */
+static AstNode *simplifyLazyExpr(AstVisitor *visitor, AstNode *expr)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    if (expr == NULL)
+        return NULL;
+    AstModifier outer = ctx->block;
+    AstNode *stmt =
+        makeExprStmt(ctx->pool, &expr->loc, flgNone, expr, NULL, expr->type);
+    AstNode *block =
+        makeBlockStmt(ctx->pool, &expr->loc, stmt, NULL, expr->type);
+    block->flags |= flgBlockReturns;
+    astModifierInit(&ctx->block, block);
+    astModifierNext(&ctx->block, stmt);
+    astVisit(visitor, expr);
+    ctx->block = outer;
+    if (block->blockStmt.stmts == stmt)
+        return expr;
+
+    stmt->type = block->type = expr->type;
+    stmt->flags |= flgBlockValue;
+    block->blockStmt.last = stmt;
+    return makeStmtExpr(
+        ctx->pool, &expr->loc, flgNone, block, NULL, expr->type);
+}
+
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    astVisit(visitor, node->ternaryExpr.cond);
+    node->ternaryExpr.body =
+        simplifyLazyExpr(visitor, node->ternaryExpr.body);
+    node->ternaryExpr.otherwise =
+        simplifyLazyExpr(visitor, node->ternaryExpr.otherwise);
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
+    if (node->binaryExpr.op == opLAnd || node->binaryExpr.op == opLOr) {
+        astVisit(visitor, node->binaryExpr.lhs);
+        node->binaryExpr.rhs =
+            simplifyLazyExpr(visitor, node->binaryExpr.rhs);
+        return;
+    }
+
     astVisitFallbackVisitAll(visitor, node);
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -1196,7 +1242,20 @@ void visitIfStmt(AstVisitor *visitor, AstNode *node)
     if (!isBooleanType(cond->type)) {
         simplifyCondition(ctx, cond);
     }
+    AstNode *otherwise = node->ifStmt.otherwise;
+    if (nodeIs(otherwise, IfStmt)) {
+        // The condition is only evaluated when the conditions before it fail,
+        // and so are the temporary variables it needs
+        node->ifStmt.otherwise = makeBlockStmt(ctx->pool,
+                                               &otherwise->loc,
+                                               otherwise,
+                                               NULL,
+                                               makeVoidType(ctx->types));
+    }
     astVisitFallbackVisitAll(visitor, node);
+    if (nodeIs(otherwise, IfStmt) &&
+        node->ifStmt.otherwise->blockStmt.stmts == otherwise)
+        node->ifStmt.otherwise = otherwise;
 }
 
 void visitReturnStmt(AstVisitor *visitor, AstNode *node)
@@ -1501,6 +1560,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astPathElem] = visitPathElement,
         [astIdentifier] = visitIdentifier,
         [astBinaryExpr] = visitBinaryExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astIndexExpr] = visitIndexExpr,
         [astCallExpr] = visitCallExpr,
         [astCastExpr] = visitCastExpr,
-- 
2.43.0


From e72ec20b8504b9e3b1cbbf8db2b1d5b688d3dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:03 +0000
Subject: [PATCH 037/106] fix: the elements of a tuple literal are not constant
 because their initializers are

---
 src/cxy/lang/middle/sema/tuple.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/tuple.c b/src/cxy/lang/middle/sema/tuple.c
index b9d9494..1d019b9 100644
--- a/src/cxy/lang/middle/sema/tuple.c
+++ b/src/cxy/lang/middle/sema/tuple.c
@@ -91,7 +91,13 @@ void checkTupleExpr(AstVisitor *visitor, AstNode *node)
     const Type **elements_ = mallocOrDie(sizeof(Type *) * node->tupleExpr.len);
     element = node->tupleExpr.elements;
     for (u64 i = 0; element; element = element->next, i++) {
-        elements_[i] = element->type;
+        // the elements are copies, which are not constant because what they
+        // were copied from is
+        const Type *type = unwrapType(element->type, NULL);
+        elements_[i] = (typeIs(type, Primitive) || typeIs(type, String) ||
+                        isStructType(type) || isTupleType(type))
+                           ? type
+                           : element->type;
     }
 
     node->type = makeTupleType(
-- 
2.43.0


From 463c96b77b91ee6d177b7bca191547da843aacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 038/106] fix: the elements of an array literal are not
 constant because the first one is

---
 src/cxy/lang/middle/sema/array.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/array.c b/src/cxy/lang/middle/sema/array.c
index 2b6ffa8..922701f 100644
--- a/src/cxy/lang/middle/sema/array.c
+++ b/src/cxy/lang/middle/sema/array.c
@@ -158,7 +158,14 @@ void checkArrayExpr(AstVisitor *visitor, AstNode *node)
         const Type *type = checkType(visitor, elem);
         isLiteral = isLiteral && isLiteralExpr(elem);
         if (elementType == NULL) {
-            elementType = type;
+            // the elements are copies, which are not constant because what
+            // they were copied from is
+            const Type *unwrapped = unwrapType(type, NULL);
+            elementType =
+                (typeIs(unwrapped, Primitive) || typeIs(unwrapped, String) ||
+                 isStructType(unwrapped) || isTupleType(unwrapped))
+                    ? unwrapped
+                    : type;
             continue;
         }
 
-- 
2.43.0


From 918e911098a5a8c79138d5b84bc89f6c2555f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:50 +0000
Subject: [PATCH 039/106] fix: assigning null to a local variable stores null

---
 src/cxy/lang/middle/mem/manage.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c692a5d..f7df62b 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -547,11 +547,6 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         else if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
             node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
         }
-        if (nodeIs(rhs, NullLit)) {
-            node->tag = astNoop;
-            vt->state = isClassType(lhs->type) ? vtsDropped : vtsAssigned;
-            return;
-        }
         vt->state = vtsAssigned;
         return;
     }
-- 
2.43.0


From 7895c7861fe603aa960277f5d251cab04730099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 040/106] fix: parameters that are moved on some path are
 dropped on the others

---
 src/cxy/lang/middle/mem/manage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index f7df62b..6dbf8be 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -194,7 +194,8 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // parameters hold a value from the start
+    bool drop = !nodeIs(var, VarDecl) || var->varDecl.init != NULL;
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
-- 
2.43.0


From a05ac21e0990a581b72297af1a15f93c4d5fbf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 041/106] fix: a variable returned from inside a loop is not
 dropped as well

---
 src/cxy/lang/middle/mem/manage.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 6dbf8be..dd9b224 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -350,7 +350,9 @@ static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
-static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
+static void sealCurrentJumpPoint(MemContext *ctx,
+                                 bool isReturn,
+                                 const AstNode *returned)
 {
     if (dynArrayEmpty(&ctx->scopes))
         return;
@@ -360,7 +362,7 @@ static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
         {
             VariableTrace *vt = findVariableTrace(ctx, var[0]);
             csAssert0(vt);
-            if (vtNeedsMemMgmt(ctx, vt)) {
+            if (var[0] != returned && vtNeedsMemMgmt(ctx, vt)) {
                 astModifierAdd(&ctx->blockModifier,
                                makeDropVariable(ctx, vt, false));
             }
@@ -656,7 +658,7 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    AstNode *expr = node->returnStmt.expr;
+    AstNode *expr = node->returnStmt.expr, *returned = NULL;
 
     if (expr) {
         ctx->returnStmt = true;
@@ -667,6 +669,7 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
             VariableTrace *vt = findVariableTrace(ctx, var);
             csAssert0(vt);
             vt->state = vtsMoved;
+            returned = var;
         }
         else if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr)) {
             expr = makeCopyExpr(ctx, expr);
@@ -701,19 +704,19 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         ctx->returnStmt = false;
     }
 
-    sealCurrentJumpPoint(ctx, true);
+    sealCurrentJumpPoint(ctx, true, returned);
 }
 
 static void visitBreakStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    sealCurrentJumpPoint(ctx, false, NULL);
 }
 
 static void visitContinueStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    sealCurrentJumpPoint(ctx, false, NULL);
 }
 
 static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From 04c0718016d23a453ffb306daa10631bcb86c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 042/106] fix: a class without defaults of its own still gets
 those of its base

---
 src/cxy/lang/middle/sema/node.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/node.c b/src/cxy/lang/middle/sema/node.c
index 2ecd028..e13e0d5 100644
--- a/src/cxy/lang/middle/sema/node.c
+++ b/src/cxy/lang/middle/sema/node.c
@@ -627,6 +627,15 @@ static void implementCallBaseInitDefaults(TypingContext *ctx,
     func->funcDecl.body->blockStmt.stmts = call;
 }
 
+static bool hasDefaultInitializer(AstNode *base)
+{
+    if (base == NULL)
+        return false;
+    const Type *type = resolveAndUnThisType(resolveAstNode(base)->type);
+    return typeIs(type, Class) &&
+           findMemberDeclInType(type, S___defaults_init) != NULL;
+}
+
 AstNode *implementDefaultInitializer(AstVisitor *visitor,
                                      AstNode *node,
                                      bool isVirtual)
@@ -664,10 +673,10 @@ AstNode *implementDefaultInitializer(AstVisitor *visitor,
         last = member;
     }
 
-    if (!isVirtual && initializers.first == NULL)
+    if (!isVirtual && initializers.first == NULL &&
+        !hasDefaultInitializer(node->classDecl.base))
         return NULL;
 
-    csAssert0(last);
     AstNode *func = makeFunctionDecl(
         ctx->pool,
         builtinLoc(),
@@ -689,7 +698,10 @@ AstNode *implementDefaultInitializer(AstVisitor *visitor,
         implementCallBaseInitDefaults(ctx, func, node->classDecl.base);
     }
     func->parentScope = node;
-    last->next = func;
+    if (last)
+        last->next = func;
+    else
+        node->classDecl.members = func;
     const Type *type = checkFunctionSignature(visitor, func);
     if (typeIs(type, Error)) {
         node->type = ERROR_TYPE(ctx);
-- 
2.43.0


From d05444150a3f581346fe5448d6d573fd4efeb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 043/106] fix: objects of a class with virtual functions start
 with the fields of a base that has none

---
 src/cxy/lang/backend/c/generate.c | 40 ++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index e2dbe73..a08767e 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -182,6 +182,29 @@ static void generateEnumType(CodegenContext *ctx, const Type *type)
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
 
+static inline void generateClassField(CodegenContext *ctx,
+                                      const NamedTypeMember *member)
+{
+    format(typeState(ctx), "\n", NULL);
+    generateTypeName(ctx, typeState(ctx), member->type);
+    format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+}
+
+// The number of fields that come before the virtual table of a class: an
+// object starts with the fields of the bases that have no virtual functions
+static u64 countFieldsBeforeVTable(const Type *type)
+{
+    u64 count = 0;
+    const Type *base = resolveAndUnThisType(getTypeBase(type));
+    while (typeIs(base, Class) && hasFlag(base->tClass.decl, Virtual))
+        base = resolveAndUnThisType(getTypeBase(base));
+    if (!typeIs(base, Class))
+        return 0;
+    for (u64 i = 0; i < base->tClass.members->count; i++)
+        count += nodeIs(base->tClass.members->members[i].decl, FieldDecl);
+    return count;
+}
+
 static void generateClassType(CodegenContext *ctx, const Type *type)
 {
     format(typeState(ctx), "typedef struct ", NULL);
@@ -202,14 +225,25 @@ static void generateClassType(CodegenContext *ctx, const Type *type)
     generateStructAttributes(ctx, type);
     generateCustomTypeName(ctx, typeState(ctx), type, "Class");
     format(typeState(ctx), " {{{>}", NULL);
+    const NamedTypeMember *vTable = NULL;
+    u64 beforeVTable = 0;
     for (u64 i = 0; i < type->tClass.members->count; i++) {
         const NamedTypeMember *member = &type->tClass.members->members[i];
         if (!nodeIs(member->decl, FieldDecl))
             continue;
-        format(typeState(ctx), "\n", NULL);
-        generateTypeName(ctx, typeState(ctx), member->type);
-        format(typeState(ctx), " {s};", (FormatArg[]){{.s = member->name}});
+        if (hasFlag(member->decl, VTable)) {
+            vTable = member;
+            beforeVTable = countFieldsBeforeVTable(type);
+            continue;
+        }
+        if (vTable && beforeVTable-- == 0) {
+            generateClassField(ctx, vTable);
+            vTable = NULL;
+        }
+        generateClassField(ctx, member);
     }
+    if (vTable)
+        generateClassField(ctx, vTable);
 
     format(typeState(ctx), "{<}\n};\n\n", NULL);
 }
-- 
2.43.0


From eca7239fe89003659e97966aa5960042ba067817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 044/106] fix: members of the base named without this dispatch
 like those named with it

---
 src/cxy/lang/middle/bind/resolve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index afe2948..7ac903f 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -154,7 +154,11 @@ static AstNode *resolvePathBaseUpChain(AstVisitor *visitor, AstNode *path)
                 &(AstNode){.tag = astPathElem,
                            .next = root,
                            .pathElement = {.isKeyword = true,
-                                           .name = S_super,
+                                           // as if accessed through `this`
+                                           // (super.func() does not dispatch)
+                                           .name = nodeIs(base, GenericDecl)
+                                                       ? S_super
+                                                       : S_this,
                                            .resolvesTo =
                                                underlyingDeclaration(base)}});
             if (nodeIs(base, GenericDecl))
-- 
2.43.0


From cfa235477a57645a4a9d5a136baf991f0be05f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 045/106] fix: a catch default only has to be assignable to the
 type of the value

---
 src/cxy/lang/middle/sema/check.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 08b8988..5b9c43a 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -301,7 +301,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
 
     const Type *target = getResultTargetType(lhs->type);
     if (block->type == NULL) {
-        if (!isTypeAssignableFrom(lhs->type, type)) {
+        if (!isTypeAssignableFrom(target, type)) {
             logError(ctx->L,
                      &node->loc,
                      "catch yield value '{t}' not assignable to expression "
@@ -310,8 +310,8 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
             node->type = ERROR_TYPE(ctx);
             return;
         }
-        block->type = type;
-        node->type = type;
+        block->type = target;
+        node->type = target;
     }
     else if (typeIs(block->type, Error)) {
         return;
-- 
2.43.0


From 476072bee4cbff96b621667df2ea8c4b8b0f1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 046/106] fix: catch blocks of unused values need no default,
 and may end with a raise

---
 src/cxy/lang/middle/sema/exception.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 64a2335..e6bc3fe 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -232,8 +232,10 @@ bool exceptionVerifyRaiseExpr(TypingContext *ctx,
         }
 
         if (ctx->catcher.block != NULL) {
-            ctx->catcher.block->type =
-                getResultTargetType(ctx->catcher.expr->type);
+            const Type *result = ctx->catcher.expr->type;
+            ctx->catcher.block->type = isVoidResultType(result)
+                                           ? makeVoidType(ctx->types)
+                                           : getResultTargetType(result);
         }
     }
     return true;
@@ -258,7 +260,9 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
     }
 
     if (!ctx->returnState) {
-        if (isVoidType(rhsType) && !isVoidResultType(lhsType)) {
+        // a value that is not used needs no default
+        bool unused = nodeIs(node->parentScope, ExprStmt);
+        if (isVoidType(rhsType) && !isVoidResultType(lhsType) && !unused) {
             logError(ctx->L,
                      &rhs->loc,
                      "catch block must yield a default value",
@@ -270,7 +274,8 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
         const Type *targetType = isVoidResultType(lhsType)
                                      ? makeVoidType(ctx->types)
                                      : getResultTargetType(lhsType);
-        if (!isTypeAssignableFrom(targetType, rhsType)) {
+        if (!(unused && isVoidType(rhsType)) &&
+            !isTypeAssignableFrom(targetType, rhsType)) {
             logError(
                 ctx->L,
                 &rhs->loc,
-- 
2.43.0


From 30e4ae1767f9fb69b757ae1fd2fe88e8a41f7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:11 +0000
Subject: [PATCH 047/106] fix: raising functions can return whatever their
 value can be assigned

---
 src/cxy/lang/middle/sema/check.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 5b9c43a..936ef35 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -226,6 +226,16 @@ static void checkReturnStmt(AstVisitor *visitor, AstNode *node)
             node->returnStmt.expr = expr;
         }
 
+        // a raising function can return whatever its value can be assigned
+        const Type *target =
+            expr && isResultType(retType) && !node->returnStmt.isRaise
+                ? getResultTargetType(retType)
+                : NULL;
+        if (target && findUnionTypeIndex(retType, expr_) == UINT32_MAX &&
+            !hasFlag(target, Optional) && isTypeAssignableFrom(target, expr_)) {
+            expr_ = target;
+        }
+
         if (!isTypeAssignableFrom(ret->type, expr_)) {
             logError(ctx->L,
                      &node->loc,
@@ -254,7 +264,7 @@ static void checkReturnStmt(AstVisitor *visitor, AstNode *node)
         if (!hasFlag(retType, Optional) || hasFlag(expr_, Optional))
             return;
 
-        const Type *target = getOptionalTargetType(retType);
+        target = getOptionalTargetType(retType);
         if (nodeIs(expr, NullLit)) {
             if (!transformOptionalNone(visitor, expr, target))
                 node->type = ERROR_TYPE(ctx);
-- 
2.43.0


From 433565c2f95e52a60ad622fff45b254a654bc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 048/106] fix: exceptions without a body have no message
 instead of failing to parse or returning garbage

---
 src/cxy/lang/frontend/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index b6aebbb..1ac2584 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2159,8 +2159,14 @@ static AstNode *exceptionDecl(Parser *P, u64 flags)
     if (match(P, tokFatArrow)) {
         body = expression(P, true);
     }
-    else
+    else if (check(P, tokLBrace)) {
         body = block(P);
+    }
+    if (body == NULL ||
+        (nodeIs(body, BlockStmt) && body->blockStmt.stmts == NULL)) {
+        // an exception without a body has no message
+        body = newAstNode(P, &tok, &(AstNode){.tag = astNullLit});
+    }
     return newAstNode(
         P,
         &tok,
-- 
2.43.0


From 62f49df5c1de9ea69ae01810aa012c3c05e03188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 049/106] fix: a catch inside a catch block has a result of its
 own

---
 src/cxy/lang/middle/sema/binary.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..8311fa7 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -212,6 +212,7 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.block = rhs;
     ctx->catcher.variable = NULL;
     ctx->catcher.ex = NULL;
+    ctx->catcher.result = NULL;
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
-- 
2.43.0


From 8e2f3d8a74ba2fc521d62dffcd2c0664bba91b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:24 +0000
Subject: [PATCH 050/106] fix: jumps out of a loop body only drop what earlier
 iterations can have left assigned

---
 src/cxy/lang/middle/mem/manage.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index dd9b224..0549657 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -168,10 +168,28 @@ static bool nodeNeedsMemMgmt(const AstNode *node)
     return isClassType(type) || isDestructible(type);
 }
 
+static bool vtIsDeclaredInCurrentLoop(MemContext *ctx, const VariableTrace *vt)
+{
+    for (int i = (int)ctx->scopes.size - 1; i >= 0; i--) {
+        TraceScope *scope = &dynArrayAt(TraceScope *, &ctx->scopes, i);
+        dynArrayFor(var, AstNode *, scope->locals)
+        {
+            if (var[0] == vt->variable)
+                return true;
+        }
+        if (scope->isLoopStart)
+            break;
+    }
+    return false;
+}
+
 static bool vtIsUpdatedInChildScopeLoop(MemContext *ctx,
                                         const VariableTrace *vt)
 {
-    return ctx->inLoop && vt->scope != ctx->currentBlock &&
+    // What a previous iteration does only matters to the variables that
+    // outlive it
+    return ctx->inLoop && !vtIsDeclaredInCurrentLoop(ctx, vt) &&
+           vt->scope != ctx->currentBlock &&
            vt->lastDropScope != ctx->currentBlock;
 }
 
@@ -254,6 +272,11 @@ static AstNode *makeDropVariable(MemContext *ctx,
                                  bool updateInChildLoop)
 {
     AstNode *var = vt->variable;
+    if ((vt->state == vtsMoved || vt->state == vtsDropped) &&
+        vt->dropFlags == NULL) {
+        // Moved on this path, but it might be assigned in another iteration
+        insertedDropFlags(ctx, vt);
+    }
     AstNode *drop = makeBackendCallExpr(
         ctx->pool,
         &var->loc,
-- 
2.43.0


From 5aca26e194d89082105d6e0511ed5bdb4998d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 051/106] fix: syntax errors in nested blocks resume in the
 block that is still being parsed

---
 src/cxy/lang/frontend/parser.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ac2584..e6ad320 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1417,7 +1417,6 @@ static AstNode *block(Parser *P)
                 match(P, tokSemicolon);
             } E4C_CATCH(ParserException) {
                 synchronizeUntil(P, tokRBrace);
-                break;
             })
     }
     consume0(P, tokRBrace);
@@ -1705,7 +1704,7 @@ static AstNode *substitute(Parser *P, bool allowStructs)
     if (match(P, tokHash, tokSubstitutue)) {
         parserError(P,
                     &previous(P)->fileLoc,
-                    "compile time markers `#` or `#{` cannot be used in "
+                    "compile time markers `#` or `#{{` cannot be used in "
                     "current context",
                     NULL);
     }
@@ -3711,6 +3710,8 @@ AstNode *parseProgram(Parser *P)
     AstNodeList decls = {NULL};
     AstNode *module = NULL;
     AstNodeList topLevel = {NULL};
+    // volatile, the parser jumps out of the blocks that set it
+    volatile bool aborted = false;
 
     if (check(P, tokModule))
         module = parseModuleDecl(P);
@@ -3727,7 +3728,9 @@ AstNode *parseProgram(Parser *P)
                     listAddAstNode(&topLevel, node);
             } E4C_CATCH(ParserException) {
                 synchronize(E4C_EXCEPTION.ctx);
-            } E4C_CATCH(ParserAbort) { return NULL; })
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+        if (aborted)
+            return NULL;
     }
 
     while (!isEoF(P)) {
@@ -3736,7 +3739,11 @@ AstNode *parseProgram(Parser *P)
                 AstNode *decl = comptime(P, comptimeDeclaration);
                 if (decl)
                     listAddAstNode(&decls, decl);
-            } E4C_CATCH(ParserException) { synchronize(E4C_EXCEPTION.ctx); })
+            } E4C_CATCH(ParserException) {
+                synchronize(E4C_EXCEPTION.ctx);
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+        if (aborted)
+            return NULL;
     }
 
     return newAstNode(P,
-- 
2.43.0


From 6a6170bdca92b0a506477dcb7ee911262ef5cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 052/106] fix: blocks can be nested more than 15 deep

---
 src/cxy/core/e4c.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/e4c.h b/src/cxy/core/e4c.h
index 585b863..2a9b858 100644
--- a/src/cxy/core/e4c.h
+++ b/src/cxy/core/e4c.h
@@ -17,7 +17,7 @@ extern "C" {
 
 /* Maximum number of nested `try` blocks */
 #ifndef E4C_MAX_FRAMES
-#define E4C_MAX_FRAMES 16
+#define E4C_MAX_FRAMES 512
 #endif
 
 /* Maximum length (in bytes) of an exception message */
-- 
2.43.0


From 4c34e42c28fa35c2851b056ea9803e0e42270502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 053/106] fix: invalid UTF-8 and unterminated character
 literals are errors, not crashes

---
 src/cxy/core/utils.c          | 19 ++++++++++---------
 src/cxy/lang/frontend/lexer.c |  5 ++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index e291fd4..cef5db4 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -51,7 +51,9 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     if (len == 0) {
         return (u32_u32_pair){1, (u32)s[0]};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
+    // an incomplete sequence, or a byte that starts none
+    if (count < len)
+        return (u32_u32_pair){0, 0};
 
     switch (len) {
     case 2:
@@ -64,10 +66,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
     default:
-        csAssert(false, "invalid UTF-8 sequence");
+        return (u32_u32_pair){0, 0};
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
@@ -136,12 +136,13 @@ size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
 
 size_t readChar(cstring str, size_t len, u32 *res)
 {
-    if (((u8 *)str)[0] >= 0x80) {
-        size_t tmp = countLeadingZeros(str[0]);
-        csAssert(tmp <= len, "invalid UTF-8 character sequence");
-        len = tmp;
+    size_t count = convertEscapeSeq(str, len, res);
+    if (count == 0 && len > 0) {
+        // not an escape sequence or valid UTF-8, take it as it is
+        *res = ((u8 *)str)[0];
+        return 1;
     }
-    return convertEscapeSeq(str, len, res);
+    return count;
 }
 
 size_t escapeString(const char *str, size_t n, char *dst, size_t size)
diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 995129d..885c31f 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -559,9 +559,8 @@ Token advanceLexer(Lexer *lexer)
             }
 
             Token token = makeToken(lexer, &begin, tokCharLiteral);
-            if (!acceptChar(lexer, '\'') ||
-                convertEscapeSeq(
-                    ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
+            if (!acceptChar(lexer, '\'') || charCount == 0 ||
+                convertEscapeSeq(ptr, charCount, &token.cVal) != charCount)
                 return makeInvalidToken(
                     lexer, &begin, "invalid character literal");
             return token;
-- 
2.43.0


From 860270760d76dddd16848ae1cb103c2f04794500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 054/106] fix: calling a macro that is not named is an error,
 not a crash

---
 src/cxy/lang/middle/preprocess/preprocessor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index 028f516..8cfc5a1 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -87,6 +87,11 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
 {
     PreprocessorContext *ctx = getAstVisitorContext(visitor);
     AstNode *callee = node->callExpr.callee, *args = node->callExpr.args;
+    if (!nodeIs(callee, Identifier)) {
+        logError(
+            ctx->L, &callee->loc, "only macros with a name can be called", NULL);
+        return;
+    }
     AstNode *macro =
         preprocessorFindMacro(ctx->preprocessor, callee->ident.value)
             ?: findSymbolOnly(ctx->env, callee->ident.value);
-- 
2.43.0


From 7f20c91974f740b244ed9335b1ba6ad604a51253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 055/106] fix: placeholders and arguments of diagnostics match

---
 src/cxy/driver/cxyfile.c          | 2 +-
 src/cxy/lang/middle/eval/for.c    | 2 +-
 src/cxy/lang/middle/eval/index.c  | 4 ++--
 src/cxy/lang/middle/eval/member.c | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxy/driver/cxyfile.c b/src/cxy/driver/cxyfile.c
index adc7cc3..95c06fd 100644
--- a/src/cxy/driver/cxyfile.c
+++ b/src/cxy/driver/cxyfile.c
@@ -201,7 +201,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
         logError(cc->L,
                  NULL,
                  "parsing '{s}' failed: {s}",
-                 (FormatArg[]){{.s = except}});
+                 (FormatArg[]){{.s = path}, {.s = except}});
         return false;
     }
 
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..ca31e1e 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -241,7 +241,7 @@ void evalForStmt(AstVisitor *visitor, AstNode *node)
                      &rangeLoc,
                      "`#for` loop range expression is not comptime iterable, "
                      "parameter '{s}' is not variadic",
-                     NULL);
+                     (FormatArg[]){{.s = node->forStmt.range->ident.value}});
             node->tag = astError;
             return;
         }
diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 5880db7..160844e 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -14,7 +14,7 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
     if (atIndex == NULL) {
         logError(ctx->L,
                  &node->loc,
-                 "index {0} is out of bounds, target has {u64} elements",
+                 "index {i64} is out of bounds, target has {u64} elements",
                  (FormatArg[]){{.i64 = index}, {.u64 = countAstNodes(list)}});
         node->tag = astError;
         return false;
@@ -83,7 +83,7 @@ static bool evalIntegerIndexExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "index out of bounds for comp-time index "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 401fdb1..46ebacb 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -27,7 +27,7 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "member out of bounds for comp-time integer member "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
-- 
2.43.0


From 1eb6b61939eb059699b738316adbfbac16074fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 056/106] fix: an empty compile-time branch crashes the
 preprocessor

---
 src/cxy/lang/middle/preprocess/preprocessor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index 8cfc5a1..b5bb2dd 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -32,6 +32,11 @@ static void substituteAstNode(AstVisitor *visitor,
         astVisit(visitor, substitute);
         insertAstNode(&replacements, substitute);
     }
+    if (replacements.first == NULL) {
+        // nothing to substitute with, e.g. an empty `#if` branch
+        node->tag = astNoop;
+        return;
+    }
     replaceAstNode(node, replacements.first);
 }
 
-- 
2.43.0


From b86af9515d1e38a35e6a02747753caf8339eff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 057/106] fix: too many type arguments are an error, not a
 crash

---
 src/cxy/lang/middle/sema/generics.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 1905543..6e93a79 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -300,8 +300,14 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
         paramsCount = type->generic.paramsCount + variadicArgumentsCount;
     const Type **paramTypes = NULL;
 
-    if (argsCount > paramsCount)
+    if (argsCount > paramsCount) {
+        logError(ctx->L,
+                 &node->loc,
+                 "too many type arguments, expecting at most '{u64}', got "
+                 "'{u64}'",
+                 (FormatArg[]){{.u64 = paramsCount}, {.u64 = argsCount}});
         return node->type = ERROR_TYPE(ctx);
+    }
 
     paramTypes = mallocOrDie(sizeof(Type *) * paramsCount);
     for (; arg; index++, arg = arg->next) {
-- 
2.43.0


From 0f7eff8b335f45610be3576a3e528d9710c2f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 058/106] fix: yield outside of a catch block is an error, not
 an abort

---
 src/cxy/lang/middle/sema/check.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 936ef35..ac0b994 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -291,7 +291,14 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
     TypingContext *ctx = getAstVisitorContext(visitor);
     AstNode *block = ctx->catcher.block, *lhs = ctx->catcher.expr,
             *expr = node->yieldStmt.expr;
-    csAssert0(block);
+    if (block == NULL) {
+        logError(ctx->L,
+                 &node->loc,
+                 "yield statement only allowed in catch blocks",
+                 NULL);
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
     if (isVoidResultType(lhs->type)) {
         logError(ctx->L,
                  &node->loc,
-- 
2.43.0


From 6d45a52ea3d4cf633c7b46ee7b2d18282dbb1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 059/106] fix: catch on an expression that cannot raise is an
 error, not a crash

---
 src/cxy/lang/middle/sema/binary.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 8311fa7..b2177d4 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -171,6 +171,23 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
     bool isNullEquality = opKind == optEquality && nodeIs(rhs, NullLit);
 
+    if (typeIs(left, Error)) {
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
+    if (opKind == optCatch && !isResultType(left)) {
+        logError(ctx->L,
+                 &lhs->loc,
+                 "left hand side of `{$}catch{$}` must be a call that can "
+                 "raise, got an expression of type '{t}'",
+                 (FormatArg[]){{.style = keywordStyle},
+                               {.style = resetStyle},
+                               {.t = left}});
+        node->type = ERROR_TYPE(ctx);
+        return;
+    }
+
     if ((opKind == optComparison || opKind == optEquality) &&
         typeIs(unwrapType(left, NULL), String) && !isNullEquality) {
         lhs = node->binaryExpr.lhs;
-- 
2.43.0


From fd0db6bb61b67a770a4345d7f8650286a7d39cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 060/106] fix: strings can be compared with strings

---
 src/cxy/lang/middle/sema/binary.c | 41 ++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index b2177d4..9f33801 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -159,6 +159,24 @@ static void checkBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+static AstNode *makeBuiltinString(TypingContext *ctx, AstNode *str)
+{
+    AstNode *decl = findBuiltinDecl(S___string);
+    return makeCallExpr(ctx->pool,
+                        &str->loc,
+                        makeResolvedPath(ctx->pool,
+                                         &str->loc,
+                                         S___string,
+                                         flgNone,
+                                         decl,
+                                         NULL,
+                                         decl->type),
+                        str,
+                        flgNone,
+                        NULL,
+                        NULL);
+}
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -190,21 +208,14 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 
     if ((opKind == optComparison || opKind == optEquality) &&
         typeIs(unwrapType(left, NULL), String) && !isNullEquality) {
-        lhs = node->binaryExpr.lhs;
-        AstNode *cStringDecl = findBuiltinDecl(S___string);
-        node->binaryExpr.lhs = makeCallExpr(ctx->pool,
-                                            &lhs->loc,
-                                            makeResolvedPath(ctx->pool,
-                                                             &lhs->loc,
-                                                             S___string,
-                                                             flgNone,
-                                                             cStringDecl,
-                                                             NULL,
-                                                             cStringDecl->type),
-                                            lhs,
-                                            flgNone,
-                                            NULL,
-                                            NULL);
+        const Type *right = checkType(visitor, rhs);
+        if (typeIs(right, Error)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+        if (typeIs(unwrapType(right, NULL), String))
+            node->binaryExpr.rhs = makeBuiltinString(ctx, rhs);
+        node->binaryExpr.lhs = makeBuiltinString(ctx, node->binaryExpr.lhs);
         left_ = stripAll(checkType(visitor, node->binaryExpr.lhs));
     }
 
-- 
2.43.0


From 42eaacb23f711fea90541896cf3f4175b1a952cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 061/106] fix: only booleans can be assigned to booleans

---
 src/cxy/lang/frontend/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index ee82b27..23b47ad 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -232,7 +232,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return isCharacterType(from);
 
         default:
-            return to->primitive.id == from->primitive.id;
+            return typeIs(from, Primitive) &&
+                   to->primitive.id == from->primitive.id;
         }
     case typPointer:
         if (isVoidPointer(to))
-- 
2.43.0


From 8b7e5d603428b064ce9c9c674d9a42fea1096d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 062/106] fix: an empty return in a function returning an
 optional is an error, not a crash

---
 src/cxy/lang/middle/sema/check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index ac0b994..8d66c23 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -236,7 +236,8 @@ static void checkReturnStmt(AstVisitor *visitor, AstNode *node)
             expr_ = target;
         }
 
-        if (!isTypeAssignableFrom(ret->type, expr_)) {
+        if (!isTypeAssignableFrom(ret->type, expr_) ||
+            (expr == NULL && !typeIs(retType, Void))) {
             logError(ctx->L,
                      &node->loc,
                      "inconsistent return type, "
-- 
2.43.0


From daed6c6976a9c927fbdf08e0c61f654addd7dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 063/106] fix: a catch only handles its own call, calls in its
 block and arguments bubble up

---
 src/cxy/lang/middle/sema/binary.c | 2 ++
 src/cxy/lang/middle/sema/call.c   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index 9f33801..d06c097 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -184,6 +184,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->explicitCatch = node->binaryExpr.op == opCatch;
     bool currentReturnState = ctx->returnState;
     const Type *left = checkType(visitor, lhs), *left_ = stripAll(left);
+    // only the left hand side is caught
+    ctx->explicitCatch = false;
 
     Operator op = node->binaryExpr.op;
     BinaryOperatorKind opKind = getBinaryOperatorKind(op);
diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 8205d47..2450bb8 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -167,9 +167,12 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
     AstNode *callee = node->callExpr.callee;
     u64 flags = getCalleeContextFlags(callee);
     bool explicitCatch = ctx->explicitCatch;
+    // a catch applies to this call, not to the calls it is made of
+    ctx->explicitCatch = false;
 
     const Type *callee_ = checkType(visitor, callee);
 
+    ctx->explicitCatch = explicitCatch;
     ctx->currentCall = currentCall;
 
     if (callee_ == NULL || typeIs(callee_, Error)) {
@@ -272,6 +275,7 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    ctx->explicitCatch = false;
     checkFunctionCallEpilogue(visitor, callee_, node, flags);
     if (typeIs(node->type, Error))
         return;
-- 
2.43.0


From 38a6d1f455952d29da90985836acd92e52c743b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:08 +0000
Subject: [PATCH 064/106] fix: the variable of a match case inside a closure is
 not captured by it

---
 src/cxy/lang/middle/bind/resolve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index 7ac903f..a465025 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -724,6 +724,7 @@ void bindCaseStmt(AstVisitor *visitor, AstNode *node)
 
     astVisit(visitor, node->caseStmt.match);
     if (node->caseStmt.variable) {
+        node->caseStmt.variable->parentScope = node;
         defineSymbol(ctx->env,
                      ctx->L,
                      node->caseStmt.variable->ident.value,
-- 
2.43.0


From 70aed66224fe8a2314c921842f5b457af437fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 065/106] fix: a vector of small capacity grows, a shifted one
 forgets the moved element

---
 src/cxy/stdlib/vector.cxy | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 43f8daf..6b879ea 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -17,7 +17,7 @@ pub class Vector[T] {
 
     - func grow() {
         if (_size >= _capacity) {
-            _capacity += (_capacity / 2)
+            _capacity += (_capacity / 2) + 1
             _data = <^T> realloc(_data !: ^void, elemSize() * _capacity)
            #if (T.isDestructible) {
                memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
@@ -59,6 +59,10 @@ pub class Vector[T] {
         var tmp = _data;
         _size--
         memmove(tmp, ptroff!(tmp + 1), elemSize() * _size)
+        #if (T.isDestructible) {
+            // moved down, no longer owned by the last slot
+            memset(ptroff!(tmp + _size), 0, elemSize())
+        }
         return item
     }
 
-- 
2.43.0


From 1d46f3cabef446457a8ed016dbd57ce3560be94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 066/106] fix: of equally good overloads the first is chosen,
 with or without conversions

---
 src/cxy/lang/middle/sema/function.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 10ced8b..42412be 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -131,7 +131,7 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
         if (score == maxScore)
             return type;
 
-        if (score >= matchScore) {
+        if (found == NULL || score > matchScore) {
             matchScore = score;
             found = type;
         }
-- 
2.43.0


From ea3622855893898da0e2f47670bce67ba1ce7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 067/106] fix: a vector resized to a larger capacity holds no
 garbage

---
 src/cxy/stdlib/vector.cxy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 6b879ea..db64e62 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -75,6 +75,9 @@ pub class Vector[T] {
         }
         _data = <^T> realloc(_data !: ^void, elemSize() * newSize)
        _capacity = newSize;
+       #if (T.isDestructible) {
+           memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
+       }
     }
 
     @inline
-- 
2.43.0


From 93d84469d93c533b01bc5e10082425929693e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 068/106] fix: operators of constant objects are found

---
 src/cxy/lang/middle/sema/binary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index d06c097..013240d 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -53,7 +53,7 @@ static bool checkClassBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     cstring name = getOpOverloadName(node->binaryExpr.op);
-    const Type *target = stripPointerOrReference(node->binaryExpr.lhs->type);
+    const Type *target = stripAll(node->binaryExpr.lhs->type);
     const NamedTypeMember *overload =
         findOverloadMemberUpInheritanceChain(target, name);
 
-- 
2.43.0


From 7233aca58f5eae02e07381d755fbdf9bdbc1888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:54 +0000
Subject: [PATCH 069/106] fix: maps of more than 127 slots are iterated to
 their end, map returns

---
 src/cxy/stdlib/hash.cxy | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f36521f..e92ef2c 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -196,7 +196,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             return
 
         var i = Hasher{}(&key) % _capacity
-        var j = 0
+        var j: u64 = 0
         while {
             const h =  _data.[i].hash
             if (h == 0 || j > probe(i, h))
@@ -276,7 +276,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         func `[]=`(key: K, value: V) => insert(&&key, &&value)
 
         func `..`() {
-            var i = 0;
+            var i: u64 = 0;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -290,7 +290,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i: u64 = 0;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -304,7 +304,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(key: K, value: V) -> void) {
-            var i = 0
+            var i: u64 = 0;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key, _data.[i].value)
@@ -314,10 +314,11 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(key: &const K, value: &const V) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i: u64 = 0;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
+                i++
             }
             return output
         }
@@ -331,7 +332,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func `..`() {
-            var i = 0;
+            var i: u64 = 0;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -345,7 +346,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i: u64 = 0;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -359,7 +360,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(item: K) -> void) {
-            var i = 0;
+            var i: u64 = 0;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key)
@@ -369,10 +370,11 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(item: &const K) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i: u64 = 0;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
+                i++
             }
             return output
         }
-- 
2.43.0


From 5efa735ff2cf511b3b84dce605beaf2d655e3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:04 +0000
Subject: [PATCH 070/106] fix: the distance of a map entry from its slot wraps
 around at the end of the table

---
 src/cxy/stdlib/hash.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index e92ef2c..45d9315 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -50,10 +50,10 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
     }
 
     - const func probe(i: u64, h: u64) {
-        var v = i - (h - 1)
-        if (v < 0)
-            v = _capacity + v
-        return v
+        const home = h - 1
+        if (i < home)
+            return _capacity + i - home
+        return i - home
     }
 
     @[inline, static]
-- 
2.43.0


From 047af83e446d4030fc45fdbef6a0b0e16648d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 071/106] fix: strings of more than 127 characters are hashed
 within their bounds

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index ff7242f..97b50fc 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -275,7 +275,7 @@ pub func hash_fnv1a_ptr(h: HashCode, ptr: ^const void) =>
 
 pub func hash_fnv1a_string(h: HashCode, str: string)
 {
-    var i = 0;
+    var i: u64 = 0;
     while (str.[i] != '\0'`char) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -285,7 +285,7 @@ pub func hash_fnv1a_string(h: HashCode, str: string)
 
 pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 {
-    var i = 0;
+    var i: u64 = 0;
     while (i < len) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -295,7 +295,7 @@ pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 
 pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 {
-    var i = 0;
+    var i: u64 = 0;
     while (i < len) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -306,7 +306,7 @@ pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 
 pub func hash_fnv1a_string_igc(h: HashCode, str: const string)
 {
-    var i = 0;
+    var i: u64 = 0;
     while (str.[i] != '\0'`char) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
-- 
2.43.0


From f3f32c7de8c87bc40b0389d0e85d29be4cb76617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 072/106] fix: a class with a base class is iterated with its
 own range operator

---
 src/cxy/lang/middle/sema/for.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index ac7216e..8e4ca21 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -17,6 +17,8 @@ static const Type *findCustomRange(TypingContext *ctx,
     if (rangeOp) {
         rangeOp = matchOverloadedFunction(
             ctx->L, rangeOp, (const Type *[]){}, 0, loc, flags & flgConst);
+        if (rangeOp)
+            return rangeOp;
     }
     type = getTypeBase(type);
     if (type) {
-- 
2.43.0


From 9b29fd47984259d0fe76d6f172d0429d85ec8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 073/106] fix: the last index of a character can be the first

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 97b50fc..4511cdf 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -494,11 +494,11 @@ pub struct __string {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (s.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
@@ -881,11 +881,11 @@ pub class String : OutputStream {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (_data.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
-- 
2.43.0


From 3ec821045b1921e018479c6b2ed650412a533526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 074/106] fix: the encoding of characters of four bytes

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 4511cdf..3810b85 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -606,7 +606,7 @@ pub class OutputStream {
             size = 3
         }
         else if (ch < 0x200000) {
-            data.[0] = <char> (0xF0 | (ch >> 16))
+            data.[0] = <char> (0xF0 | (ch >> 18))
             data.[1] = <char> (0x80 | ((ch >> 12) & 0x3f))
             data.[2] = <char> (0x80 | ((ch >> 6) & 0x3f))
             data.[3] = <char> (0x80 | (ch & 0x3f))
-- 
2.43.0


From b4894e1c168873ea841aa696d56f93678cb94321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 075/106] fix: the hash of bytes includes the last one

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 3810b85..f9e67a7 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -321,7 +321,7 @@ pub func hash_fnv1a_bytes(h: HashCode,
                          size: u64)
 {
     const p = ptr !: ^const u8;
-    for (const i: 0..size-1)
+    for (const i: 0..size)
         h = hash_fnv1a_uint8(h, p.[i]);
     return h
 }
-- 
2.43.0


From 010d8ae264b5214d578042e61ca6581fc560b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 076/106] fix: a String is resized within its capacity

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index f9e67a7..9c5bde1 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -815,7 +815,7 @@ pub class String : OutputStream {
     }
 
     func resize(newSize: u64) {
-        assert!(_capacity <= newSize)
+        assert!(newSize <= _capacity)
         _size = newSize
         _data.[_size] = '\0'`char
     }
-- 
2.43.0


From 4c8c821404a3a98a3b0d15a3fc12db7e81ab545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 077/106] fix: numbers are read from the characters of a view
 only

---
 src/cxy/runtime/builtins.cxy | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 9c5bde1..c28d5a0 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -470,14 +470,22 @@ pub struct __string {
 
     const func toi[T](base: i32 = 0) {
         require!(T.isInteger, "type '{t}' unsupported by `__string.toi`", #T)
-        var ep: ^const char = null;
-        return <T>strtoll(s !: ^const char, ptrof ep, base);
+        // the view might not be null terminated
+        var tmp = malloc(_size + 1) !: ^char;
+        copyto(tmp, _size + 1)
+        var num = strtoll(tmp, null, base);
+        free(tmp !: ^void)
+        return <T>num;
     }
 
     const func tof[T]() {
         require!(T.isFloat, "type '{t}' unsupported by `__string.tof`", #T)
-        var ep: ^const char = null;
-        return <T>strtod(s !: ^const char, ptrof ep);
+        // the view might not be null terminated
+        var tmp = malloc(_size + 1) !: ^char;
+        copyto(tmp, _size + 1)
+        var num = strtod(tmp, null);
+        free(tmp !: ^void)
+        return <T>num;
     }
 
     const func indexOf(ch: char) : Optional[u64] {
-- 
2.43.0


From cf2a2d77b6fbf4ccee0149dcca96ce843ad54953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 078/106] fix: a String trimmed from the left is terminated

---
 src/cxy/runtime/builtins.cxy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c28d5a0..684468f 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -856,6 +856,7 @@ pub class String : OutputStream {
             var p = ptroff!(this._data + i);
             memmove(_data, p, _size - i)
             _size = _size - i
+            _data.[_size] = '\0'
         }
     }
 
-- 
2.43.0


From 1827d45d6c13a995d08ed0fa1630c73931fc5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:40 +0000
Subject: [PATCH 079/106] fix: constant enums are enums at compile time

---
 src/cxy/lang/middle/eval/comptime.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/eval/comptime.c b/src/cxy/lang/middle/eval/comptime.c
index bfb2934..5477ba7 100644
--- a/src/cxy/lang/middle/eval/comptime.c
+++ b/src/cxy/lang/middle/eval/comptime.c
@@ -666,12 +666,12 @@ static AstNode *isEnum(EvalContext *ctx,
                        AstNode *node,
                        attr(unused) AstNode *args)
 {
-    node->type ?: evalType(ctx, node);
-    return makeAstNode(
-        ctx->pool,
-        loc,
-        &(AstNode){.tag = astBoolLit,
-                   .boolLiteral.value = typeIs(node->type, Enum)});
+    const Type *type = node->type ?: evalType(ctx, node);
+    type = unwrapType(resolveType(type), NULL);
+    return makeAstNode(ctx->pool,
+                       loc,
+                       &(AstNode){.tag = astBoolLit,
+                                  .boolLiteral.value = typeIs(type, Enum)});
 }
 
 static AstNode *isVoidComptime(EvalContext *ctx,
-- 
2.43.0


From 39c855bd79822351c903f81497129808e6bf291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:40 +0000
Subject: [PATCH 080/106] fix: elements of tuples copied from constant enums
 and unions are not constant

---
 src/cxy/lang/middle/sema/tuple.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/tuple.c b/src/cxy/lang/middle/sema/tuple.c
index 1d019b9..1523d66 100644
--- a/src/cxy/lang/middle/sema/tuple.c
+++ b/src/cxy/lang/middle/sema/tuple.c
@@ -93,9 +93,10 @@ void checkTupleExpr(AstVisitor *visitor, AstNode *node)
     for (u64 i = 0; element; element = element->next, i++) {
         // the elements are copies, which are not constant because what they
         // were copied from is
-        const Type *type = unwrapType(element->type, NULL);
+        const Type *type = maybeUnThisType(unwrapType(element->type, NULL));
         elements_[i] = (typeIs(type, Primitive) || typeIs(type, String) ||
-                        isStructType(type) || isTupleType(type))
+                        isStructType(type) || isTupleType(type) ||
+                        typeIs(type, Enum) || isUnionType(type))
                            ? type
                            : element->type;
     }
-- 
2.43.0


From 74c4bb681eff1b256f5a3c2a8ca22dfe6a2622bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:40 +0000
Subject: [PATCH 081/106] fix: generics and tuples take This for the type it
 stands for

---
 src/cxy/lang/middle/sema/generics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/generics.c b/src/cxy/lang/middle/sema/generics.c
index 6e93a79..737d61a 100644
--- a/src/cxy/lang/middle/sema/generics.c
+++ b/src/cxy/lang/middle/sema/generics.c
@@ -162,7 +162,7 @@ static bool inferGenericFunctionTypes(AstVisitor *visitor,
                     implementTupleTypeCopyAndDestructor(visitor, arg);
                 }
                 else
-                    paramTypes[index++] = arg->type;
+                    paramTypes[index++] = maybeUnThisType(arg->type);
                 arg = arg->next;
             }
             break;
-- 
2.43.0


From c9c406371dec0dc4549eb4abf3a7596ea88b204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:50 +0000
Subject: [PATCH 082/106] fix: reject binary, octal and hexadecimal literals
 without digits

---
 src/cxy/lang/frontend/lexer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 885c31f..a32bbdf 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -610,6 +610,9 @@ Token advanceLexer(Lexer *lexer)
                             &begin,
                             "binary digit contains invalid characters");
                     }
+                    if (getCurPtr(lexer) == ptr)
+                        return makeInvalidToken(
+                            lexer, &begin, "binary literal without digits");
 
                     return parseIntLiteral(lexer, &begin, ptr, 2);
                 }
@@ -626,6 +629,9 @@ Token advanceLexer(Lexer *lexer)
                             &begin,
                             "hexadecimal digit contains invalid characters");
                     }
+                    if (getCurPtr(lexer) == ptr)
+                        return makeInvalidToken(
+                            lexer, &begin, "hexadecimal literal without digits");
 
                     return parseIntLiteral(lexer, &begin, ptr, 16);
                 }
@@ -641,6 +647,9 @@ Token advanceLexer(Lexer *lexer)
                             &begin,
                             "octal digit contains invalid characters");
                     }
+                    if (getCurPtr(lexer) == ptr)
+                        return makeInvalidToken(
+                            lexer, &begin, "octal literal without digits");
                     return parseIntLiteral(lexer, &begin, ptr, 8);
                 }
             }
-- 
2.43.0


From a42bda6d5add934833c1727746a2e2160fbc4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 083/106] fix: an operator expression given to a macro is one
 operand of its expansion

---
 src/cxy/lang/middle/preprocess/preprocessor.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index b5bb2dd..03181b1 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -157,6 +157,14 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
 
         tmp->flags |= flgMacroArgument;
         astVisit(visitor, tmp);
+        if (nodeIs(tmp, BinaryExpr) || nodeIs(tmp, TernaryExpr) ||
+            nodeIs(tmp, AssignExpr)) {
+            // an argument is one operand wherever the macro uses it
+            AstNode *next = tmp->next;
+            tmp->next = NULL;
+            tmp = makeGroupExpr(
+                ctx->pool, &tmp->loc, flgMacroArgument, tmp, next);
+        }
         ok = defineSymbol(ctx->env, ctx->L, param->ident.value, tmp) && ok;
     }
     if (ok && hasFlag(macro, Variadic) && param && arg == NULL) {
-- 
2.43.0


From 6f03eacda3be3af7bdaebaeec32faa2979cb642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 084/106] fix: compile-time loops, ranges, arrays and grouped
 expressions evaluate to what they say

---
 src/cxy/lang/middle/bind/resolve.c |  2 ++
 src/cxy/lang/middle/eval/eval.c    | 17 ++++++++---------
 src/cxy/lang/middle/eval/for.c     | 18 +++++++++++++++---
 src/cxy/lang/middle/eval/index.c   |  3 +++
 src/cxy/lang/middle/eval/member.c  |  3 +++
 5 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/cxy/lang/middle/bind/resolve.c b/src/cxy/lang/middle/bind/resolve.c
index a465025..4eb09f8 100644
--- a/src/cxy/lang/middle/bind/resolve.c
+++ b/src/cxy/lang/middle/bind/resolve.c
@@ -678,6 +678,8 @@ void bindForStmt(AstVisitor *visitor, AstNode *node)
     pushScope(ctx->env, node);
 
     astVisit(visitor, node->forStmt.range);
+    // the variable of a comptime loop only exists at compile time
+    node->forStmt.var->flags |= (node->flags & flgComptime);
     astVisitManyNodes(visitor, node->forStmt.var);
     astVisit(visitor, node->forStmt.body);
 
diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..b7c0475 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -102,7 +102,7 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    if (node->tag != astUnaryExpr && node->tag != astGroupExpr &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
@@ -198,12 +198,10 @@ void evalTernaryExpr(AstVisitor *visitor, AstNode *node)
         node->next = next;
     }
 
-    while (nodeIs(node, TernaryExpr) || hasFlag(node, Comptime)) {
-        node->flags &= ~flgComptime;
-        if (!evaluate(visitor, node)) {
-            node->tag = astError;
-            return;
-        }
+    node->flags &= ~flgComptime;
+    if (!evaluate(visitor, node)) {
+        node->tag = astError;
+        return;
     }
 
     node->flags |= visited;
@@ -276,7 +274,7 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
@@ -292,7 +290,8 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
 void evalArrayExpr(AstVisitor *visitor, AstNode *node)
 {
     AstNode *arg = node->arrayExpr.elements;
-    for (; arg; arg = arg->next) {
+    u64 len = 0;
+    for (; arg; arg = arg->next, len++) {
         if (!evaluate(visitor, arg)) {
             node->tag = astError;
             return;
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ca31e1e..c4f5a23 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -61,7 +61,8 @@ static bool evalExprForStmtArray(AstVisitor *visitor,
     for (; elem; elem = elem->next) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         body->parentScope = node->parentScope;
-        variable->varDecl.init = elem;
+        variable->varDecl.init = shallowCloneAstNode(ctx->pool, elem);
+        variable->varDecl.init->next = NULL;
 
         const Type *type = evalType(ctx, body);
 
@@ -178,12 +179,23 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
                    ? integerLiteralValue(range->rangeExpr.step)
                    : 1;
 
-    for (; i < count; i += step) {
+    if (step == 0) {
+        logError(ctx->L,
+                 &range->loc,
+                 "the step of a comp-time range cannot be 0",
+                 NULL);
+        node->tag = astError;
+        return false;
+    }
+
+    bool down = range->rangeExpr.down || step < 0;
+    for (; down ? i > count : i < count; i += step) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral = {.value = i, .isNegative = i < 0}});
 
         if (body) {
             body->parentScope = node->parentScope;
diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 160844e..61c6abc 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -19,7 +19,10 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
         node->tag = astError;
         return false;
     }
+    AstNode *next = node->next, *parentScope = node->parentScope;
     *node = *atIndex;
+    node->next = next;
+    node->parentScope = parentScope;
     return true;
 }
 
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 46ebacb..3df6d0f 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -34,7 +34,10 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         return false;
     }
 
+    AstNode *next = node->next, *parentScope = node->parentScope;
     *node = *getNodeAtIndex(target->tupleExpr.elements, i);
+    node->next = next;
+    node->parentScope = parentScope;
     return true;
 }
 
-- 
2.43.0


From 956efd2de84349b15a389817502bb03f5efc4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 085/106] fix: constants are folded exactly, and their division
 by zero is an error

---
 src/cxy/lang/frontend/ast.h               |   5 +
 src/cxy/lang/middle/eval/binary.c         |  42 +++------
 src/cxy/lang/middle/eval/literal.c        | 106 ++++++++++++++++++++++
 src/cxy/lang/middle/eval/unary.c          |  29 ++----
 src/cxy/lang/middle/preprocess/evaluate.c |  69 +++++---------
 5 files changed, 154 insertions(+), 97 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index dffe9fe..d4123ef 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1516,6 +1516,11 @@ void nodeSetNumericLiteral(AstNode *node,
                            f64 value);
 
 bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
+i64 nodeGetIntegerLiteral(const AstNode *node);
+void nodeSetIntegerLiteral(AstNode *node, i64 value);
+bool nodeFoldArithmetic(AstNode *node, Operator op, AstNode *lhs, AstNode *rhs);
+int nodeCompareNumericLiterals(const AstNode *lhs, const AstNode *rhs);
+
 
 static inline bool isClassOrStructAstNode(const AstNode *node)
 {
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..bdeade9 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -120,8 +120,7 @@ static void evalAddOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    nodeFoldArithmetic(node, opAdd, lhs, rhs);
 }
 
 static void evalSubOperation(EvalContext *ctx, AstNode *node)
@@ -145,8 +144,7 @@ static void evalSubOperation(EvalContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    nodeFoldArithmetic(node, opSub, lhs, rhs);
 }
 
 static void evalMulOperation(EvalContext *ctx, AstNode *node)
@@ -177,8 +175,7 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    nodeFoldArithmetic(node, opMul, lhs, rhs);
 }
 
 static void evalDivOperation(EvalContext *ctx, AstNode *node)
@@ -209,15 +206,9 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value =
-            nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
-    }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    if (!nodeFoldArithmetic(node, opDiv, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "division by zero", NULL);
+        node->tag = astError;
     }
 }
 
@@ -244,11 +235,10 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (!nodeFoldArithmetic(node, opMod, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "division by zero", NULL);
+        node->tag = astError;
+    }
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
@@ -302,11 +292,7 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        nodeFoldArithmetic(node, op##Name, lhs, rhs);                          \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -414,8 +400,7 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
                                                                                \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        node->boolLiteral.value = nodeCompareNumericLiterals(lhs, rhs) OP 0;   \
     }
 
 static void evalIsOperation(EvalContext *ctx, AstNode *node)
@@ -458,8 +443,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
                                                                                \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        node->boolLiteral.value = nodeCompareNumericLiterals(lhs, rhs) OP 0;   \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index 37e8bed..a7b8e85 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -26,6 +26,19 @@ f64 nodeGetNumericLiteral(const AstNode *node)
     }
 }
 
+i64 nodeGetIntegerLiteral(const AstNode *node)
+{
+    return nodeIs(node, IntegerLit) ? integerLiteralValue(node)
+                                    : (i64)nodeGetNumericLiteral(node);
+}
+
+void nodeSetIntegerLiteral(AstNode *node, i64 value)
+{
+    node->tag = astIntegerLit;
+    node->intLiteral.isNegative = value < 0;
+    node->intLiteral.value = value;
+}
+
 i64 getEnumLiteralValue(const AstNode *node)
 {
     csAssert0(typeIs(node->type, Enum));
@@ -106,6 +119,99 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
     }
 }
 
+static __int128 getExactInteger(const AstNode *node)
+{
+    if (!nodeIs(node, IntegerLit))
+        return (__int128)nodeGetNumericLiteral(node);
+    return node->intLiteral.isNegative ? (__int128)node->intLiteral.value
+                                       : (__int128)node->intLiteral.uValue;
+}
+
+static inline bool areIntegerOperands(const AstNode *lhs, const AstNode *rhs)
+{
+    return (nodeIs(lhs, IntegerLit) || nodeIs(rhs, IntegerLit)) &&
+           !nodeIs(lhs, FloatLit) && !nodeIs(rhs, FloatLit);
+}
+
+int nodeCompareNumericLiterals(const AstNode *lhs, const AstNode *rhs)
+{
+    if (areIntegerOperands(lhs, rhs)) {
+        __int128 l = getExactInteger(lhs), r = getExactInteger(rhs);
+        return (l > r) - (l < r);
+    }
+    f64 l = nodeGetNumericLiteral(lhs), r = nodeGetNumericLiteral(rhs);
+    return (l > r) - (l < r);
+}
+
+// Replaces node with the value of lhs op rhs. Integers are computed exactly and
+// not as floats. Returns false if the value is undefined (division by zero)
+bool nodeFoldArithmetic(AstNode *node, Operator op, AstNode *lhs, AstNode *rhs)
+{
+    bool isFloat = nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit);
+    if (isFloat) {
+        f64 l = nodeGetNumericLiteral(lhs), r = nodeGetNumericLiteral(rhs);
+        f64 value = op == opAdd   ? l + r
+                    : op == opSub ? l - r
+                    : op == opMul ? l * r
+                                  : l / r;
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+        return true;
+    }
+
+    __int128 l = getExactInteger(lhs), r = getExactInteger(rhs), value = 0;
+    switch (op) {
+    case opAdd:
+        value = l + r;
+        break;
+    case opSub:
+        value = l - r;
+        break;
+    case opMul:
+        value = (__int128)((unsigned __int128)l * (unsigned __int128)r);
+        break;
+    case opDiv:
+        if (r == 0)
+            return false;
+        value = l / r;
+        break;
+    case opMod:
+        if (r == 0)
+            return false;
+        value = l % r;
+        break;
+    case opShl:
+        value = (r < 0 || r > 63)
+                    ? 0
+                    : (__int128)((unsigned __int128)l << (int)r);
+        break;
+    case opShr:
+        value = (r < 0 || r > 63) ? 0 : l >> (int)r;
+        break;
+    case opBAnd:
+        value = l & r;
+        break;
+    case opBOr:
+        value = l | r;
+        break;
+    case opBXor:
+        value = l ^ r;
+        break;
+    default:
+        unreachable("not an arithmetic operator");
+    }
+
+    if (!areIntegerOperands(lhs, rhs)) {
+        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+        return true;
+    }
+
+    nodeSetIntegerLiteral(node, (i64)value);
+    // values above the range of i64 are unsigned
+    if (node->intLiteral.isNegative && (value > 0 || value < INT64_MIN))
+        node->intLiteral.isNegative = false;
+    return true;
+}
+
 bool evalBooleanCast(EvalContext *ctx, AstNode *node)
 {
     switch (node->tag) {
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..426629e 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -43,18 +43,13 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = -nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, (i64)(-(u64)nodeGetIntegerLiteral(rhs)));
     }
 }
 
@@ -64,18 +59,13 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, nodeGetIntegerLiteral(rhs));
     }
 }
 
@@ -91,7 +81,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +92,7 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeSetIntegerLiteral(node, ~nodeGetIntegerLiteral(rhs));
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -133,7 +122,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..ad688d2 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -22,8 +22,7 @@ static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    nodeFoldArithmetic(node, opAdd, lhs, rhs);
 }
 
 static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
@@ -38,8 +37,7 @@ static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    nodeFoldArithmetic(node, opSub, lhs, rhs);
 }
 
 static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
@@ -60,8 +58,7 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    nodeFoldArithmetic(node, opMul, lhs, rhs);
 }
 
 static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
@@ -83,15 +80,9 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value =
-            nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
-    }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    if (!nodeFoldArithmetic(node, opDiv, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "division by zero", NULL);
+        node->tag = astError;
     }
 }
 
@@ -108,11 +99,10 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (!nodeFoldArithmetic(node, opMod, lhs, rhs)) {
+        logError(ctx->L, &node->loc, "division by zero", NULL);
+        node->tag = astError;
+    }
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
@@ -157,11 +147,7 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        nodeFoldArithmetic(node, op##Name, lhs, rhs);                          \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -207,8 +193,7 @@ static void evalIsOperation(PreprocessorContext *ctx, AstNode *node)
                                                                                \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        node->boolLiteral.value = nodeCompareNumericLiterals(lhs, rhs) OP 0;   \
     }
 
 CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Eq, ==)
@@ -223,8 +208,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        node->boolLiteral.value = nodeCompareNumericLiterals(lhs, rhs) OP 0;   \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
@@ -268,36 +252,26 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = -nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, (i64)(-(u64)nodeGetIntegerLiteral(rhs)));
     }
 }
 
 static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, nodeGetIntegerLiteral(rhs));
     }
 }
 
@@ -310,12 +284,11 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeSetIntegerLiteral(node, ~nodeGetIntegerLiteral(rhs));
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From 123adba75733520e96e11d386380f987e1c033aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 086/106] fix: compile-time concatenation of negative integers
 and of operands without text

---
 src/cxy/lang/middle/eval/binary.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index bdeade9..07d0eac 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -29,8 +29,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
@@ -57,10 +58,14 @@ void evalStringConcatenation(EvalContext *ctx,
                              AstNode *lhs,
                              AstNode *rhs)
 {
-    StringBuilder sb;
+    StringBuilder sb = {};
     stringBuilderInit(&sb);
-    evalStringBuilderAppend(ctx, &sb, lhs);
-    csAssert0(evalStringBuilderAppend(ctx, &sb, rhs));
+    if (!evalStringBuilderAppend(ctx, &sb, lhs) ||
+        !evalStringBuilderAppend(ctx, &sb, rhs)) {
+        stringBuilderDeinit(&sb);
+        node->tag = astError;
+        return;
+    }
 
     char *str = stringBuilderRelease(&sb);
     node->tag = astStringLit;
-- 
2.43.0


From 2ddf7952af625a89bc05efe29593f8ad6885ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 087/106] fix: compile-time comparison of types compares the
 types

---
 src/cxy/lang/frontend/ast.h       |  1 -
 src/cxy/lang/middle/eval/binary.c |  3 +-
 src/cxy/lang/middle/eval/eval.c   | 57 +++++++++++++++++++++++++------
 src/cxy/lang/middle/eval/eval.h   |  1 +
 4 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index d4123ef..4034fbd 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1515,7 +1515,6 @@ void nodeSetNumericLiteral(AstNode *node,
                            AstNode *rhs,
                            f64 value);
 
-bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
 i64 nodeGetIntegerLiteral(const AstNode *node);
 void nodeSetIntegerLiteral(AstNode *node, i64 value);
 bool nodeFoldArithmetic(AstNode *node, Operator op, AstNode *lhs, AstNode *rhs);
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 07d0eac..e5b7abd 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -396,7 +396,8 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
         if (isTypeExpr(lhs) && isTypeExpr(rhs)) {                              \
             memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                   \
             node->tag = astBoolLit;                                            \
-            node->boolLiteral.value = true OP comptimeCompareTypes(lhs, rhs);  \
+            node->boolLiteral.value =                            \
+                true OP comptimeCompareTypes(ctx, lhs, rhs);                   \
             return;                                                            \
         }                                                                      \
                                                                                \
diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index b7c0475..ba3d870 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -8,10 +8,12 @@
 #include "lang/frontend/strings.h"
 #include "lang/frontend/ttable.h"
 
-static bool comptimeCompareManyTypes(const AstNode *lhs, const AstNode *rhs)
+static bool comptimeCompareManyTypes(EvalContext *ctx,
+                                     AstNode *lhs,
+                                     AstNode *rhs)
 {
     while (lhs && rhs) {
-        if (!comptimeCompareTypes(lhs, rhs))
+        if (!comptimeCompareTypes(ctx, lhs, rhs))
             return false;
         lhs = lhs->next;
         rhs = rhs->next;
@@ -50,8 +52,34 @@ const Type *evalType(EvalContext *ctx, AstNode *node)
     return node->type;
 }
 
-bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
+static const Type *getComptimeType(EvalContext *ctx, AstNode *node)
 {
+    while (nodeIs(node, Ref))
+        node = node->reference.target;
+
+    const Type *type = node->type;
+    if (type == NULL) {
+        if (!isTypeExpr(node) || isClassOrStructAstNode(node) ||
+            nodeIs(node, EnumDecl) || nodeIs(node, UnionDecl) ||
+            nodeIs(node, FuncDecl) || nodeIs(node, GenericParam))
+            return NULL;
+        type = evalType(ctx, node);
+    }
+
+    if (typeIs(type, Info))
+        type = type->info.target;
+    return type ? resolveAndUnThisType(type) : NULL;
+}
+
+bool comptimeCompareTypes(EvalContext *ctx, AstNode *lhs, AstNode *rhs)
+{
+    if (!nodeIs(lhs, AutoType) && !nodeIs(rhs, AutoType)) {
+        const Type *left = getComptimeType(ctx, lhs),
+                   *right = getComptimeType(ctx, rhs);
+        if (left && right && !typeIs(left, Error) && !typeIs(right, Error))
+            return compareTypes(unwrapType(left, NULL), unwrapType(right, NULL));
+    }
+
     if (lhs->tag != rhs->tag) {
         if (nodeIs(lhs, TypeRef) || nodeIs(rhs, TypeRef))
             return lhs->type == rhs->type;
@@ -66,22 +94,28 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
         return lhs->primitiveType.id == rhs->primitiveType.id;
     case astArrayType:
         return lhs->arrayType.dim == rhs->arrayType.dim &&
-               comptimeCompareTypes(lhs->arrayType.elementType,
+               comptimeCompareTypes(ctx, lhs->arrayType.elementType,
                                     rhs->arrayType.elementType);
     case astTupleType:
-        return comptimeCompareManyTypes(lhs->tupleType.elements,
+        return comptimeCompareManyTypes(ctx, lhs->tupleType.elements,
                                         rhs->tupleType.elements);
     case astPointerType:
-        return comptimeCompareTypes(lhs->pointerType.pointed,
+        return comptimeCompareTypes(ctx, lhs->pointerType.pointed,
                                     rhs->pointerType.pointed);
     case astReferenceType:
-        return comptimeCompareTypes(lhs->referenceType.referred,
+        return comptimeCompareTypes(ctx, lhs->referenceType.referred,
                                     rhs->referenceType.referred);
     case astOptionalType:
-        return comptimeCompareTypes(lhs->optionalType.type,
+        return comptimeCompareTypes(ctx, lhs->optionalType.type,
                                     rhs->optionalType.type);
     case astFuncType:
-        return comptimeCompareTypes(lhs->funcType.ret, rhs->funcType.params);
+        return comptimeCompareTypes(
+                   ctx, lhs->funcType.ret, rhs->funcType.ret) &&
+               comptimeCompareManyTypes(
+                   ctx, lhs->funcType.params, rhs->funcType.params);
+    case astFuncParamDecl:
+        return comptimeCompareTypes(
+            ctx, lhs->funcParam.type, rhs->funcParam.type);
     case astEnumDecl:
         return lhs->enumDecl.name == rhs->enumDecl.name;
     case astStructDecl:
@@ -93,8 +127,8 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
     case astRef:
         lhs = lhs->reference.target;
         return nodeIs(rhs, Ref)
-                   ? comptimeCompareTypes(lhs, rhs->reference.target)
-                   : comptimeCompareTypes(lhs, rhs);
+                   ? comptimeCompareTypes(ctx, lhs, rhs->reference.target)
+                   : comptimeCompareTypes(ctx, lhs, rhs);
     default:
         return false;
     }
@@ -297,6 +331,7 @@ void evalArrayExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
     }
+    node->arrayExpr.len = len;
 }
 
 void evalVarDecl(AstVisitor *visitor, AstNode *node)
diff --git a/src/cxy/lang/middle/eval/eval.h b/src/cxy/lang/middle/eval/eval.h
index 08b9369..c2b7f41 100644
--- a/src/cxy/lang/middle/eval/eval.h
+++ b/src/cxy/lang/middle/eval/eval.h
@@ -24,6 +24,7 @@ void initEvalVisitor(AstVisitor *visitor, EvalContext *ctx);
 
 const Type *evalType(EvalContext *ctx, AstNode *node);
 bool evaluate(AstVisitor *visitor, AstNode *node);
+bool comptimeCompareTypes(EvalContext *ctx, AstNode *lhs, AstNode *rhs);
 void initComptime(EvalContext *ctx);
 
 void evalStringConcatenation(EvalContext *ctx,
-- 
2.43.0


From 696a00dedb2b65055dd148b47f15a3e0faf808be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 088/106] fix: has_member!, has_type!, is_base_of!, indexof!
 and isClosure answer for the type they are given

---
 src/cxy/lang/middle/eval/comptime.c |  2 +-
 src/cxy/lang/middle/eval/macro.c    | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/comptime.c b/src/cxy/lang/middle/eval/comptime.c
index 5477ba7..2102001 100644
--- a/src/cxy/lang/middle/eval/comptime.c
+++ b/src/cxy/lang/middle/eval/comptime.c
@@ -764,7 +764,7 @@ static AstNode *isClosure(EvalContext *ctx,
 
     const Type *type = node->type ?: evalType(ctx, node);
     type = resolveUnThisUnwrapType(type);
-    bool value = typeIs(type, Class) || hasFlag(type, Closure);
+    bool value = hasFlag(type, Closure);
 
     return makeAstNode(
         ctx->pool,
diff --git a/src/cxy/lang/middle/eval/macro.c b/src/cxy/lang/middle/eval/macro.c
index b5989fc..a90090e 100644
--- a/src/cxy/lang/middle/eval/macro.c
+++ b/src/cxy/lang/middle/eval/macro.c
@@ -354,6 +354,9 @@ static AstNode *makeHasMemberNode(AstVisitor *visitor,
     type = resolveType(type);
     args->next = NULL;
     args->tag = astBoolLit;
+    args->type = getPrimitiveType(ctx->types, prtBool);
+    args->flags &= ~flgTypeinfo;
+    clearAstBody(args);
 
     const Type *member = findMemberInType(target, name->stringLiteral.value);
     if (typeIs(member, Func) && typeIs(type, Func)) {
@@ -407,6 +410,9 @@ static AstNode *makeHasTypeNode(AstVisitor *visitor,
         findMemberDeclInType(target, name->stringLiteral.value);
     args->next = NULL;
     args->tag = astBoolLit;
+    args->type = getPrimitiveType(ctx->types, prtBool);
+    args->flags &= ~flgTypeinfo;
+    clearAstBody(args);
     args->boolLiteral.value = nodeIs(type, TypeDecl);
     return args;
 }
@@ -1445,6 +1451,7 @@ static AstNode *makeIndexOfNode(AstVisitor *visitor,
     if (typeIs(target, Error))
         return NULL;
     csAssert0(target);
+    target = resolveType(target);
 
     i64 idx = -1;
     switch (type->tag) {
@@ -1545,11 +1552,13 @@ static AstNode *makeIsBaseOfNode(AstVisitor *visitor,
     base = resolveUnThisUnwrapType(base);
     type = resolveUnThisUnwrapType(type);
     const Type *impl = getTypeBase(type);
+    while (impl && impl != base)
+        impl = getTypeBase(resolveUnThisUnwrapType(impl));
     args->tag = astBoolLit;
     args->next = NULL;
     args->type = getPrimitiveType(ctx->types, prtBool);
     clearAstBody(args);
-    args->boolLiteral.value = impl && impl == base;
+    args->boolLiteral.value = impl != NULL;
     return args;
 }
 
-- 
2.43.0


From f56da6caa700695a42513dc21063c98770440613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:11 +0000
Subject: [PATCH 089/106] fix: a << expression given to a macro continues the
 output chain it is put into

---
 src/cxy/lang/middle/preprocess/preprocessor.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/preprocess/preprocessor.c b/src/cxy/lang/middle/preprocess/preprocessor.c
index 03181b1..0f16d55 100644
--- a/src/cxy/lang/middle/preprocess/preprocessor.c
+++ b/src/cxy/lang/middle/preprocess/preprocessor.c
@@ -157,9 +157,10 @@ static void visitMacroCall(AstVisitor *visitor, AstNode *node)
 
         tmp->flags |= flgMacroArgument;
         astVisit(visitor, tmp);
-        if (nodeIs(tmp, BinaryExpr) || nodeIs(tmp, TernaryExpr) ||
-            nodeIs(tmp, AssignExpr)) {
-            // an argument is one operand wherever the macro uses it
+        if ((nodeIs(tmp, BinaryExpr) && tmp->binaryExpr.op != opShl) ||
+            nodeIs(tmp, TernaryExpr) || nodeIs(tmp, AssignExpr)) {
+            // an argument is one operand wherever the macro uses it, except
+            // that `<<` continues the output chain it is put into
             AstNode *next = tmp->next;
             tmp->next = NULL;
             tmp = makeGroupExpr(
-- 
2.43.0


From 0fe43e9c80dd54f43fcbe4791402811cd986e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 090/106] fix: a struct whose method calls its own constructor
 is generated once

---
 src/cxy/lang/frontend/ttable.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index 03bddbe..b073020 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -1236,8 +1236,13 @@ const Type *replaceStructType(TypeTable *table,
                               AstNode *decl,
                               u64 flags)
 {
-    removeFromTypeTable(table, og);
-    return makeStructType(table, og->name, members, membersCount, decl, flags);
+    // the type keeps its identity, it might already be referred to
+    Type *type = (Type *)og;
+    type->flags = flags;
+    type->tStruct.members =
+        makeTypeMembersContainer(table, members, membersCount);
+    type->tStruct.decl = decl;
+    return type;
 }
 
 const Type *replaceAliasType(TypeTable *table,
-- 
2.43.0


From d1213bcdd503ee5b95af00b104e5cc5a30372080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 091/106] fix: const on a generic method makes the method const

---
 src/cxy/lang/frontend/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index e6ad320..d0fd127 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2977,6 +2977,8 @@ static AstNode *parseClassOrStructMember(Parser *P)
         reportUnexpectedToken(P, "struct member");
     }
     member->flags |= (isConst ? flgConst : flgNone);
+    if (nodeIs(member, GenericDecl))
+        member->genericDecl.decl->flags |= (isConst ? flgConst : flgNone);
     member->attrs = attrs;
     return member;
 }
@@ -3006,6 +3008,8 @@ static AstNode *parseInterfaceMember(Parser *P)
         reportUnexpectedToken(P, "interface member");
     }
     member->flags |= (isConst ? flgConst : flgNone);
+    if (nodeIs(member, GenericDecl))
+        member->genericDecl.decl->flags |= (isConst ? flgConst : flgNone);
     member->attrs = attrs;
     return member;
 }
-- 
2.43.0


From 0c23193c1642f789f04bc4faeaaa86796a097b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 092/106] fix: an interpolated string as the expression body of
 a function is compiled

---
 src/cxy/lang/middle/shake/shake.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index d41a4a7..37fbd3d 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -619,9 +619,6 @@ static void shakeFuncDecl(AstVisitor *visitor, AstNode *node)
 
     node->funcDecl.paramsCount = total;
     node->funcDecl.requiredParamsCount = required;
-    astVisit(visitor, node->funcDecl.body);
-    if (node->funcDecl.signature->ret)
-        astVisit(visitor, node->funcDecl.signature->ret);
     if (node->funcDecl.body && !nodeIs(node->funcDecl.body, BlockStmt)) {
         node->funcDecl.body = makeAstNode(
             ctx->pool,
@@ -635,6 +632,10 @@ static void shakeFuncDecl(AstVisitor *visitor, AstNode *node)
                         &(AstNode){.tag = astReturnStmt,
                                    .returnStmt.expr = node->funcDecl.body})}});
     }
+    // an expression body can need statements of its own, e.g. `f"..."`
+    astVisit(visitor, node->funcDecl.body);
+    if (node->funcDecl.signature->ret)
+        astVisit(visitor, node->funcDecl.signature->ret);
 
     if (isVariadic) {
         if (!hasFlag(node, Extern)) {
-- 
2.43.0


From fc7a87ebdb768eb4db25f970f6dfe188bb5d9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 093/106] fix: the condition of a ?: of struct or class type
 uses its !! overload

---
 src/cxy/lang/middle/sema/check.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 8d66c23..f95210c 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -798,6 +798,11 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    cond = unwrapType(cond, NULL);
+    if (isClassOrStructType(stripReference(cond)) &&
+        transformToTruthyOperator(visitor, node->ternaryExpr.cond))
+        cond = node->ternaryExpr.cond->type;
+
     if (!isTruthyType(cond)) {
         logError(ctx->L,
                  &node->ternaryExpr.cond->loc,
-- 
2.43.0


From fb6fb8382997b9fbfc754c22b5620d4679b06ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:21 +0000
Subject: [PATCH 094/106] fix: the order of const and non-const versions of a
 member function does not matter

---
 src/cxy/lang/middle/sema/function.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 42412be..34ff07b 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -128,10 +128,16 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
         if (!compatible)
             continue;
 
-        if (score == maxScore)
+        // of two versions of a member, `this` that isn't const takes the one
+        // that isn't const
+        bool exact =
+            !isMemberFunction(decl) || (decl->flags & flgConst) == flags;
+        if (score == maxScore && exact)
             return type;
 
-        if (found == NULL || score > matchScore) {
+        if (found == NULL || score > matchScore ||
+            (score == matchScore && exact &&
+             hasFlag(found->func.decl, Const))) {
             matchScore = score;
             found = type;
         }
@@ -341,7 +347,9 @@ const Type *checkFunctionSignature(AstVisitor *visitor, AstNode *node)
                                                 NULL,
                                                 node->flags & flgConst,
                                                 true);
-        if (found && found->func.decl != node) {
+        if (found && found->func.decl != node &&
+            (!isMemberFunction(node) ||
+             !((found->func.decl->flags ^ node->flags) & flgConst))) {
             // conflict
             logError(
                 ctx->L,
-- 
2.43.0


From e6edb090e9f37aa6e8a6b614988790315ec9c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 095/106] fix: the type suffix of a literal ends before |

---
 src/cxy/lang/frontend/parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index d0fd127..8ea9e9d 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -45,6 +45,7 @@ static inline AstNode *statementOrExpression(Parser *P)
 static inline AstNode *statementOnly(Parser *P) { return statement(P, false); }
 
 static AstNode *parseType(Parser *P);
+static AstNode *parseTypeImpl(Parser *P);
 
 static AstNode *parseUnionType(Parser *P);
 
@@ -461,7 +462,7 @@ static inline AstNode *parseChar(Parser *P)
         P, tok, &(AstNode){.tag = astCharLit, .charLiteral.value = tok->cVal});
 
     if (match(P, tokQuote)) {
-        AstNode *type = parseType(P);
+        AstNode *type = parseTypeImpl(P);
         return newAstNode(
             P,
             tok,
@@ -488,7 +489,7 @@ static inline AstNode *parseInteger(Parser *P, bool isNegative)
     }
 
     if (match(P, tokQuote)) {
-        type = parseType(P);
+        type = parseTypeImpl(P);
         return newAstNode(
             P,
             (isNegative ? &tok : &prev),
@@ -508,7 +509,7 @@ static inline AstNode *parseFloat(Parser *P, bool isNegative)
         &(AstNode){.tag = astFloatLit,
                    .floatLiteral.value = isNegative ? -tok->fVal : tok->fVal});
     if (match(P, tokQuote)) {
-        AstNode *type = parseType(P);
+        AstNode *type = parseTypeImpl(P);
         return newAstNode(
             P,
             (isNegative ? &prev : tok),
-- 
2.43.0


From 7d5a324871437f9f886e7ca670894bd9ebd1299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:24 +0000
Subject: [PATCH 096/106] fix: compound assignment through an index operator
 applies its operator

---
 src/cxy/lang/middle/sema/assign.c | 52 +++++++++++++++++++++++++++++++
 src/cxy/lang/middle/sema/check.h  |  1 +
 src/cxy/lang/middle/sema/node.c   |  2 +-
 3 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 8c7170a..dab75bc 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -7,6 +7,55 @@
 #include "lang/frontend/flag.h"
 #include "lang/frontend/strings.h"
 
+// change X.[a] += y to X.[a] = X.[a] + y, X and a are evaluated once
+static void expandCompoundIndexAssignment(AstVisitor *visitor, AstNode *node)
+{
+    TypingContext *ctx = getAstVisitorContext(visitor);
+    AstNode *left = node->assignExpr.lhs, *right = node->assignExpr.rhs;
+    left->indexExpr.target =
+        transformRValueToLValue(visitor, left->indexExpr.target);
+
+    AstNode *index = left->indexExpr.index;
+    if (!isLiteralExpr(index) && !nodeIs(index, Path)) {
+        const Type *type = checkType(visitor, index);
+        if (typeIs(type, Error))
+            return;
+        AstNode *var = makeVarDecl(ctx->pool,
+                                   &index->loc,
+                                   flgTemporary,
+                                   makeAnonymousVariable(ctx->strings, "_ix"),
+                                   NULL,
+                                   index,
+                                   NULL,
+                                   type);
+        astModifierAdd(&ctx->blockModifier, var);
+        left->indexExpr.index = makeResolvedPath(ctx->pool,
+                                                 &index->loc,
+                                                 var->_name,
+                                                 var->flags,
+                                                 var,
+                                                 NULL,
+                                                 type);
+    }
+
+    node->assignExpr.rhs =
+        makeBinaryExpr(ctx->pool,
+                       &node->loc,
+                       flgNone,
+                       deepCloneAstNode(ctx->pool, left),
+                       node->assignExpr.op,
+                       nodeIs(right, BinaryExpr) || nodeIs(right, TernaryExpr)
+                           ? makeGroupExpr(ctx->pool,
+                                           &right->loc,
+                                           right->flags,
+                                           right,
+                                           NULL)
+                           : right,
+                       NULL,
+                       NULL);
+    node->assignExpr.op = opAssign;
+}
+
 static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
 {
     // change X.[a] = y to X.op_idx_assign(a, y);
@@ -26,6 +75,9 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    if (node->assignExpr.op != opAssign)
+        expandCompoundIndexAssignment(visitor, node);
+
     AstNode *args = left->indexExpr.index;
     args->next = node->assignExpr.rhs;
 
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index f81a935..66dc1cf 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -74,6 +74,7 @@ const FileLoc *lastNodeLoc_(FileLoc *dst, AstNode *nodes);
 
 AstNode *makeDefaultValue(MemPool *pool, const Type *type, FileLoc *loc);
 
+AstNode *transformRValueToLValue(AstVisitor *visitor, AstNode *node);
 bool transformToTruthyOperator(AstVisitor *visitor, AstNode *node);
 bool transformToAwaitOperator(AstVisitor *visitor, AstNode *node);
 bool transformToDerefOperator(AstVisitor *visitor, AstNode *node);
diff --git a/src/cxy/lang/middle/sema/node.c b/src/cxy/lang/middle/sema/node.c
index e13e0d5..7506e02 100644
--- a/src/cxy/lang/middle/sema/node.c
+++ b/src/cxy/lang/middle/sema/node.c
@@ -38,7 +38,7 @@ static AstNode *makeStructInitializerForDefaults(TypingContext *ctx,
     return init.first;
 }
 
-static AstNode *transformRValueToLValue(AstVisitor *visitor, AstNode *node)
+AstNode *transformRValueToLValue(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     if (node == NULL || !nodeIs(node, CallExpr))
-- 
2.43.0


From fcc700d672d4a5ae744a1fb57dd119a0a9987435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 097/106] fix: classes inherit the index and call operators of
 their base

---
 src/cxy/lang/middle/sema/assign.c |  4 ++--
 src/cxy/lang/middle/sema/call.c   | 19 +++++++++++++++++++
 src/cxy/lang/middle/sema/index.c  |  3 +--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index dab75bc..50aedf8 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -64,8 +64,8 @@ static void checkIndexExprAssignment(AstVisitor *visitor, AstNode *node)
     const Type *lhs = left->indexExpr.target->type;
     const Type *target = stripPointer(lhs);
 
-    const Type *func = findMemberInType(lhs, S_IndexAssignOverload);
-    if (func == NULL) {
+    if (findOverloadMemberUpInheritanceChain(stripAll(lhs),
+                                             S_IndexAssignOverload) == NULL) {
         logError(ctx->L,
                  &node->assignExpr.rhs->loc,
                  "cannot assign to struct index expression, type '{t}' does "
diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 2450bb8..e23ed81 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -214,6 +214,25 @@ void checkCallExpr(AstVisitor *visitor, AstNode *node)
         else {
             flags &= ~flgConst;
             overload = findStructMemberType(rawType, S_CallOverload);
+            if (overload == NULL && findOverloadMemberUpInheritanceChain(
+                                        rawType, S_CallOverload)) {
+                // inherited
+                node->callExpr.callee = makeMemberExpr(
+                    ctx->pool,
+                    &callee->loc,
+                    callee->flags,
+                    callee,
+                    makeIdentifier(ctx->pool,
+                                   &callee->loc,
+                                   S_CallOverload,
+                                   0,
+                                   NULL,
+                                   NULL),
+                    NULL,
+                    NULL);
+                astVisit(visitor, node);
+                return;
+            }
         }
 
         if (overload) {
diff --git a/src/cxy/lang/middle/sema/index.c b/src/cxy/lang/middle/sema/index.c
index 747407c..fab8882 100644
--- a/src/cxy/lang/middle/sema/index.c
+++ b/src/cxy/lang/middle/sema/index.c
@@ -18,8 +18,7 @@ static void checkIndexOperator(AstVisitor *visitor, AstNode *node)
     const Type *target = stripAll(node->indexExpr.target->type);
     // csAssert0(!isParentAssignExpr(node));
 
-    const Type *func = findStructMemberType(target, S_IndexOverload);
-    if (func == NULL) {
+    if (findOverloadMemberUpInheritanceChain(target, S_IndexOverload) == NULL) {
         logError(ctx->L,
                  &node->indexExpr.target->loc,
                  "index expression target type '{t}' does not overload the "
-- 
2.43.0


From d83b87db2e8fdcef2f992dba39b8d7ee92fd42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 098/106] fix: ! and []= overloads apply to objects seen
 through references

---
 src/cxy/lang/middle/sema/assign.c | 2 +-
 src/cxy/lang/middle/sema/unary.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/assign.c b/src/cxy/lang/middle/sema/assign.c
index 50aedf8..2f9861b 100644
--- a/src/cxy/lang/middle/sema/assign.c
+++ b/src/cxy/lang/middle/sema/assign.c
@@ -100,7 +100,7 @@ void checkAssignExpr(AstVisitor *visitor, AstNode *node)
             return;
         }
 
-        if (isClassOrStructType(target)) {
+        if (isClassOrStructType(stripReference(unwrapType(target, NULL)))) {
             checkIndexExprAssignment(visitor, node);
             return;
         }
diff --git a/src/cxy/lang/middle/sema/unary.c b/src/cxy/lang/middle/sema/unary.c
index d6365e4..1900655 100644
--- a/src/cxy/lang/middle/sema/unary.c
+++ b/src/cxy/lang/middle/sema/unary.c
@@ -122,7 +122,7 @@ static const Type *checkPrefixExpr(AstVisitor *visitor,
         }
         break;
     case opNot:
-        operand = resolveUnThisUnwrapType(operand);
+        operand = stripReference(resolveUnThisUnwrapType(operand));
         if (isClassOrStructType(operand)) {
             if (transformToTruthyOperator(visitor, node->unaryExpr.operand)) {
                 operand = node->unaryExpr.operand->type;
-- 
2.43.0


From 80abc25d83c47b994e38f0d4652810e89c4f29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:34 +0000
Subject: [PATCH 099/106] fix: a base class named through its module

---
 src/cxy/lang/frontend/ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index ccd0d27..6f53490 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -2813,7 +2813,7 @@ AstNode *resolveAstNode(AstNode *node)
     case astTypeDecl:
         return resolveAstNode(node->typeDecl.aliased);
     case astPath:
-        return resolveAstNode(node->path.elements);
+        return resolveAstNode(resolvePath(node));
     case astPathElem:
         return resolveAstNode(node->pathElement.resolvesTo);
     case astIdentifier:
-- 
2.43.0


From 5cae16fac29f76c0ef58f3a78f1cefd1102d161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:34 +0000
Subject: [PATCH 100/106] fix: members of a module that are not public cannot
 be used through its name

---
 src/cxy/lang/middle/sema/path.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index f8e9ddd..7cfcd89 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -61,6 +61,18 @@ static AstNode *resolveMemberUpInheritance(TypingContext *ctx,
     return decl;
 }
 
+static bool isModuleMemberPublic(const AstNode *decl)
+{
+    if (hasFlag(decl, Public) || hasFlag(decl, Extern))
+        return true;
+    // one of its overloads may be public
+    for (; nodeIs(decl, FuncDecl) && decl; decl = decl->list.link) {
+        if (hasFlag(decl, Public))
+            return true;
+    }
+    return false;
+}
+
 const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -91,8 +103,23 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
         resolved = decl ? decl->type : NULL;
         break;
     case typInterface:
+        decl = resolveMember(ctx, parent, node, &flags, name);
+        resolved = decl ? decl->type : NULL;
+        break;
     case typModule:
         decl = resolveMember(ctx, parent, node, &flags, name);
+        if (decl && !isModuleMemberPublic(decl)) {
+            logError(ctx->L,
+                     &node->loc,
+                     "module {s} member '{s}' cannot be used here, it is not "
+                     "public",
+                     (FormatArg[]){{.s = parent->name}, {.s = name}});
+            logNote(ctx->L,
+                    &decl->loc,
+                    "`{s}` declared here",
+                    (FormatArg[]){{.s = name}});
+            break;
+        }
         resolved = decl ? decl->type : NULL;
         break;
     case typException:
-- 
2.43.0


From d4a95d703c9770bb98ed8727e9dff07e54248284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:51 +0000
Subject: [PATCH 101/106] fix: a module that imports itself, directly or not,
 is an error

---
 src/cxy/driver/driver.c | 25 +++++++++++++++++++++++++
 src/cxy/driver/driver.h |  7 +++++++
 2 files changed, 32 insertions(+)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 60a68a0..b2861c4 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -88,6 +88,16 @@ static void addCachedModule(CompilerDriver *driver,
     csAssert0(status);
 }
 
+static bool isModuleOpen(const CompilerDriver *driver, cstring path)
+{
+    const OpenModule *open = driver->openModules;
+    for (; open; open = open->importer) {
+        if (strcmp(open->path, path) == 0)
+            return true;
+    }
+    return false;
+}
+
 attr(always_inline) static char *getCachedAstPath(Options *options,
                                                   const char *fileName)
 {
@@ -424,7 +434,19 @@ const Type *compileModule(CompilerDriver *driver,
                 return NULL;
             }
 
+            if (isModuleOpen(driver, path)) {
+                logError(driver->L,
+                         &source->loc,
+                         "module source '{s}' imports itself, directly or "
+                         "through the modules it imports",
+                         (FormatArg[]){{.s = path}});
+                return NULL;
+            }
+
+            OpenModule open = {.path = path, .importer = driver->openModules};
+            driver->openModules = &open;
             program = parseFile(driver, path, false);
+            driver->openModules = open.importer;
             if (program == NULL)
                 return NULL;
 
@@ -507,8 +529,11 @@ bool compileFile(const char *fileName, CompilerDriver *driver)
     if (!configureDriverSourceDir(driver, &fileName))
         return false;
     startCompilerStats(driver);
+    OpenModule open = {.path = fileName};
+    driver->openModules = &open;
     AstNode *program =
         parseFile(driver, fileName, driver->options.cmd == cmdTest);
+    driver->openModules = NULL;
     if (program) {
         program->flags |= flgMain;
         return compileProgram(driver, program, fileName, true);
diff --git a/src/cxy/driver/driver.h b/src/cxy/driver/driver.h
index 811bf00..8cbb776 100644
--- a/src/cxy/driver/driver.h
+++ b/src/cxy/driver/driver.h
@@ -40,11 +40,18 @@ typedef struct {
     HashTable binaries;
 } CxyPackage;
 
+// A source file that is being compiled, and the one that imports it
+typedef struct OpenModule {
+    cstring path;
+    struct OpenModule *importer;
+} OpenModule;
+
 typedef struct CompilerDriver {
     Options options;
     MemPool *pool;
     StrPool *strings;
     HashTable moduleCache;
+    OpenModule *openModules;
     HashTable nativeSources;
     HashTable linkLibraries;
     cstring currentDir; // Directory that cxy was executed from
-- 
2.43.0


From 9f699a00ce55370a24c6ddb5ef11675fbbc8f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 102/106] fix: calls choose from the overloads declared after
 them too

---
 src/cxy/lang/middle/sema/call.c     | 11 ++++++++++
 src/cxy/lang/middle/sema/function.c |  7 +++++-
 src/cxy/lang/middle/sema/path.c     | 33 +++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index e23ed81..f97d099 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -108,6 +108,17 @@ static void checkFunctionCallEpilogue(AstVisitor *visitor,
         return;
     }
 
+    AstNode *target = callee_->func.decl;
+    if (typeIs(callee_->func.retType, Auto) && hasFlag(target, ForwardDecl)) {
+        // only its signature has been checked, its body has the type
+        astVisit(visitor, target);
+        callee_ = target->type;
+        if (typeIs(callee_, Error)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+    }
+
     reAssignCalleeType(callee, callee_);
     node->type = callee_->func.retType;
     if (typeIs(node->type, Auto)) {
diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 34ff07b..6916411 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -320,6 +320,8 @@ const Type *checkFunctionSignature(AstVisitor *visitor, AstNode *node)
 
     const Type *type = ret_;
     u64 defaultValues = 0;
+    // default values can call the other overloads
+    node->flags |= flgVisited;
     for (u64 i = 0; param; param = param->next, i++) {
         params_[i] = param->type ?: checkType(visitor, param);
         if (typeIs(params_[i], Error))
@@ -327,13 +329,15 @@ const Type *checkFunctionSignature(AstVisitor *visitor, AstNode *node)
 
         defaultValues += (param->funcParam.def != NULL);
     }
+    node->flags &= ~flgVisited;
 
     if (typeIs(type, Error)) {
         free(params_);
         return node->type = ERROR_TYPE(ctx);
     }
 
-    if (node->list.first && node->list.first != node) {
+    if (node->list.first && node->list.first != node &&
+        node->list.first->type) {
         type = node->list.first->type;
         if (typeIs(type, Error)) {
             return node->type = type;
@@ -473,6 +477,7 @@ void checkFunctionDecl(AstVisitor *visitor, AstNode *node)
         ctx->root.parent->flags |= flgExecutable;
     }
 
+    node->flags &= ~flgForwardDecl;
     const Type *type = checkFunctionSignature(visitor, node);
     if (typeIs(type, Error))
         return;
diff --git a/src/cxy/lang/middle/sema/path.c b/src/cxy/lang/middle/sema/path.c
index 7cfcd89..8e3ac69 100644
--- a/src/cxy/lang/middle/sema/path.c
+++ b/src/cxy/lang/middle/sema/path.c
@@ -157,6 +157,28 @@ const Type *checkMember(AstVisitor *visitor, const Type *parent, AstNode *node)
     return resolved;
 }
 
+// A call chooses from all the overloads of a function, those declared further
+// down the file too
+static const Type *checkFunctionOverloads(AstVisitor *visitor, AstNode *node)
+{
+    TypingContext *ctx = getAstVisitorContext(visitor);
+    if (node->type == NULL && !hasFlag(node, Visited))
+        checkTypeShallow(visitor, node, true);
+
+    const Type *type = node->type;
+    AstNode *decl = node->list.first ?: node;
+    for (; decl; decl = decl->list.link) {
+        if (decl->type == NULL && !hasFlag(decl, Visited)) {
+            __typeof(ctx->stack) stack = ctx->stack;
+            checkFunctionSignature(visitor, decl);
+            ctx->stack = stack;
+            decl->flags |= flgForwardDecl;
+        }
+        type = type ?: decl->type;
+    }
+    return type;
+}
+
 static const Type *checkBasePathElement(AstVisitor *visitor,
                                         AstNode *node,
                                         u64 flags)
@@ -189,6 +211,17 @@ static const Type *checkBasePathElement(AstVisitor *visitor,
         AstNode *target = node->pathElement.resolvesTo;
         if (nodeIs(target, FieldDecl) || isMemberFunction(target))
             node->flags |= (flgMember | flgAddThis);
+        if (nodeIs(target, FuncDecl) && !isMemberFunction(target)) {
+            node->type = checkFunctionOverloads(visitor, target);
+            if (node->type)
+                return node->type;
+
+            logError(ctx->L,
+                     &node->loc,
+                     "function '{s}' is used by its own signature",
+                     (FormatArg[]){{.s = getDeclarationName(target)}});
+            return node->type = ERROR_TYPE(ctx);
+        }
         return node->type =
                    target->type ?: checkTypeShallow(visitor, target, true);
     }
-- 
2.43.0


From 8b4527fe15b652acadd33395e411b5d74e700d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 103/106] fix: members of an enum named through its module are
 constants

---
 src/cxy/lang/frontend/ast.c        | 3 ++-
 src/cxy/lang/middle/eval/literal.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index 6f53490..1432e39 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -1801,7 +1801,8 @@ bool isEnumLiteral(const AstNode *node)
         return false;
     switch (node->tag) {
     case astPath:
-        return hasFlag(node->path.elements->next, EnumLiteral);
+        return hasFlag(getLastAstNodeConst(node->path.elements),
+                       EnumLiteral);
     case astMemberExpr:
         return hasFlag(node->memberExpr.member, EnumLiteral);
     default:
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index a7b8e85..9ffef33 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -44,7 +44,7 @@ i64 getEnumLiteralValue(const AstNode *node)
     csAssert0(typeIs(node->type, Enum));
     cstring name = NULL;
     if (nodeIs(node, Path) && node->path.elements->next)
-        name = node->path.elements->next->pathElement.name;
+        name = getLastAstNodeConst(node->path.elements)->pathElement.name;
     else if (nodeIs(node, MemberExpr) &&
              nodeIs(node->memberExpr.member, Identifier))
         name = node->memberExpr.member->ident.value;
-- 
2.43.0


From bd8db2b608cfd16857a45acce0681033357f3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:18 +0000
Subject: [PATCH 104/106] fix: a function with the name of an imported one is
 an error

---
 src/cxy/lang/middle/bind/scope.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/bind/scope.c b/src/cxy/lang/middle/bind/scope.c
index 7d189d0..e59f9ca 100644
--- a/src/cxy/lang/middle/bind/scope.c
+++ b/src/cxy/lang/middle/bind/scope.c
@@ -196,7 +196,9 @@ void defineFunctionDecl(Env *env, Log *L, const char *name, AstNode *node)
         &env->scope->symbols, &symbol, hash, sizeof(Symbol), compareSymbols);
     csAssert0(sym);
 
-    if (!wasInserted && L && !nodeIs(sym->node, FuncDecl)) {
+    // functions that were imported have no overloads here
+    if (!wasInserted && L &&
+        (!nodeIs(sym->node, FuncDecl) || sym->last == NULL)) {
         logError(L,
                  &node->loc,
                  "symbol '{s}' already defined in current scope",
-- 
2.43.0


From fa1984044182700aacc453fac6957bf8c829a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 105/106] fix: variables of modules keep their objects alive
 and release them

---
 src/cxy/lang/middle/mem/manage.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 0549657..ef873b1 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -160,8 +160,7 @@ static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
 static bool nodeNeedsMemMgmt(const AstNode *node)
 {
     const Type *type = resolveUnThisUnwrapType(node->type);
-    if (hasFlags(node,
-                 flgMove | flgTemporary | flgReference | flgTopLevelDecl) ||
+    if (hasFlags(node, flgMove | flgTemporary | flgReference) ||
         hasFlag(type, Extern)) {
         return false;
     }
-- 
2.43.0


From e2635441bbb3eec508dd7ee07982faadf2211396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:59 +0000
Subject: [PATCH 106/106] fix: struct literals that compute their fields are
 not constant initialisers

---
 src/cxy/lang/frontend/ast.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.c b/src/cxy/lang/frontend/ast.c
index 1432e39..74dc691 100644
--- a/src/cxy/lang/frontend/ast.c
+++ b/src/cxy/lang/frontend/ast.c
@@ -1759,6 +1759,10 @@ bool isStaticExpr(const AstNode *node)
         return true;
     case astIdentifier:
         return nodeIs(node->ident.resolvesTo, FuncDecl);
+    case astPath:
+        return nodeIs(
+            getLastAstNodeConst(node->path.elements)->pathElement.resolvesTo,
+            FuncDecl);
     case astMemberExpr:
         return isStaticExpr(node->memberExpr.target);
     case astTupleExpr:
@@ -1770,9 +1774,7 @@ bool isStaticExpr(const AstNode *node)
         return true;
     case astStructExpr:
         for (AstNode *elem = node->structExpr.fields; elem; elem = elem->next) {
-            if (!nodeIs(elem, FieldDecl))
-                continue;
-            if (!isStaticExpr(elem->structField.value))
+            if (!isStaticExpr(elem->fieldExpr.value))
                 return false;
         }
         return true;
-- 
2.43.0

