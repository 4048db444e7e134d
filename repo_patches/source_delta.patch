From 8d9c0969c4ab18a0d2ad4d732ec1b992dd8ffc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 01/54] fix: only Opcao types accept implicit conversions from
 other types

---
 amanda/compiler/types/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..e495ad8 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -629,10 +629,8 @@ class ConstructedTy(Type):
         )
 
     def promotion_from(self, other: Type) -> Type | None:
-        # If not of type Talvez, return
-        if not isinstance(other, Primitive) and self.generic_ty.name != str(
-            Types.TOpcao
-        ):
+        # Only values of type Opcao can be built from other types
+        if not self._is_opcao():
             return None
 
         inner_ty = self.bound_ty_args["T"]
-- 
2.43.0


From 4e8017e95de8d31ea33327fcf300d63743349c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 02/54] fix: read at most one control sequence per backslash in
 strings

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..bc2ca41 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -160,10 +160,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From 9cbda9d50301a1475569e4203f1d59959b02b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 03/54] fix: count the lines inside a string literal

---
 amanda/compiler/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index bc2ca41..41e123f 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -154,6 +154,7 @@ class Lexer:
         result = StringIO()
         symbol = self.current_char
         start_pos = self.pos
+        start_line = self.line
         self.advance()
         while self.current_char != symbol:
             if self.current_char == "\\":
@@ -170,7 +171,11 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
+                self.line, self.pos = start_line, start_pos
                 self.error(self.INVALID_STRING, line=self.line)
+            if self.current_char == "\n":
+                self.line += 1
+                self.pos = 1
             result.write(self.current_char)
             self.advance()
         self.advance()
@@ -179,7 +184,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From 0372e1caa202eb82999455119f2693b7ad15174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 04/54] fix: refuse numbers that are not decimal or do not fit
 the VM's types

---
 amanda/compiler/parse.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 41e123f..13399e6 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -17,6 +17,9 @@ class Lexer:
     # Errors that happen during tokenization
     INVALID_SYMBOL = "O símbolo '{symbol}' não foi reconhecido"
     INVALID_STRING = "A sequência de caracteres não foi delimitada"
+    INVALID_NUMBER = "O número é demasiado grande"
+    # Largest integer that the VM can represent
+    MAX_INT = 2**63 - 1
 
     def __init__(self, filename, src):
         self.filename = filename
@@ -122,24 +125,33 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
+            real = float(result)
+            if real == float("inf"):
+                self.error(self.INVALID_NUMBER)
             return Token(
-                TT.REAL, float(result), self.line, self.pos - (len(result) + 1)
+                TT.REAL, real, self.line, self.pos - (len(result) + 1)
             )
 
+        # Leading zeros don't count, the limit has 19 digits
+        digits = result
+        while len(digits) > 19 and int(digits[0]) == 0:
+            digits = digits[1:]
+        if len(digits) > 19 or int(digits) > self.MAX_INT:
+            self.error(self.INVALID_NUMBER)
         return Token(
-            TT.INTEGER, int(result), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, int(digits), self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
@@ -248,7 +260,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From 48acc9040ab504d60dbf58fc868935e5cfa45eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 05/54] fix: name the symbol that was not recognised in the
 error message

---
 amanda/compiler/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 13399e6..16df127 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -227,11 +227,13 @@ class Lexer:
                     return tok
                 else:
                     tok = Token.from_char(char, self.line, self.pos)
-                    self.advance()
+                    if tok:
+                        self.advance()
                     return tok
             case (False, char, lookahead):
                 tok = Token.from_char(char, self.line, self.pos)
-                self.advance()
+                if tok:
+                    self.advance()
                 return tok
             case _:
                 return self.error(self.INVALID_SYMBOL, symbol=self.current_char)
-- 
2.43.0


From 689cc708b891f5725becea0d0dd2211646ae959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 06/54] fix: do not read a backslash followed by n as a line
 break

---
 amanda/compiler/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/tokens.py b/amanda/compiler/tokens.py
index 849cdf6..6817943 100644
--- a/amanda/compiler/tokens.py
+++ b/amanda/compiler/tokens.py
@@ -108,6 +108,8 @@ def build_tokens_dict() -> Dict[str, TokenType]:
     return {
         token_type.value.lower(): token_type
         for token_type in tt_list[start_index : end_index + 1]
+        # Line breaks are not written with a backslash
+        if token_type is not TokenType.NEWLINE
     }
 
 
-- 
2.43.0


From dc4a972107ff3b9946f143443efa8c53960aab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 07/54] fix: apply the operator in compound assignments to
 fields

---
 amanda/compiler/parse.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 16df127..e2c6ac4 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1021,12 +1021,24 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                # The field is read and written by different nodes
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(
+                        token,
+                        left=copy.deepcopy(expr),
+                        right=self.equality(),
+                    ),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
                     expr,
-                    ast.BinOp(token, left=expr, right=self.equality()),
+                    ast.BinOp(
+                        token,
+                        left=copy.deepcopy(expr),
+                        right=self.equality(),
+                    ),
                 )
             else:
                 expr = ast.Assign(
-- 
2.43.0


From 26afb363f0e6d16325e98c56ad1d52aca76fa2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 08/54] fix: an assignment to an element of a vector is not
 assignable

---
 amanda/compiler/ast.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..1814c84 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -456,9 +456,6 @@ class IndexSet(Expr):
         self.index = index
         self.value = value
 
-    def is_assignable(self):
-        return True
-
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
-- 
2.43.0


From 7c663d55d81aebd5d1b8efdce09416df6a909646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 09/54] fix: report constants that can't be used as patterns

---
 amanda/compiler/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index e2c6ac4..3fcd88c 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -863,7 +863,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
-- 
2.43.0


From 5a99552139acf12b63c178aba83bd559738bc8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 10/54] fix: keep the text of format strings as text

---
 amanda/compiler/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 3fcd88c..d8b5264 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1232,7 +1232,12 @@ class Parser:
         parts = []
 
         tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+            Token(
+                TT.STRING,
+                lexeme=f'"{lexeme}"',
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
-- 
2.43.0


From 11c70a0b132949c6a9c41769068f7dd4e6e39118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 11/54] fix: accept empty format strings

---
 amanda/compiler/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index d8b5264..0dc8bb1 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1269,7 +1269,7 @@ class Parser:
             char = format_str.read(1)
 
         buff_str = current_str.getvalue()
-        if buff_str:
+        if buff_str or not parts:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
             return parts[0]
-- 
2.43.0


From ef05562c778d1b9a797eb397dba68ee0e45aec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 12/54] fix: refuse text after the expression in a format
 string

---
 amanda/compiler/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 0dc8bb1..0cfa837 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1214,6 +1214,10 @@ class Parser:
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    f"era esperado o símbolo '}}',porém recebeu o símbolo '{self.lookahead.lexeme}'"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
-- 
2.43.0


From a70ef20ad09e0b0a161b0299d6a4b5bd5fe75da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 13/54] fix: report the line of the format string for its
 expressions

---
 amanda/compiler/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 0cfa837..f334ea5 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1211,6 +1211,7 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
-- 
2.43.0


From 889a1ee4a32723559afc3f7b2028996fdb80bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 14/54] fix: refuse record fields that have no type

---
 amanda/compiler/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index f334ea5..b4aaeb1 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -666,12 +666,12 @@ class Parser:
                 self.skip_newlines()
                 continue
             name = self.consume(TT.IDENTIFIER)
-            if self.match(TT.COLON):
-                field = self.simple_decl(name)
-                fields.append(field)
-            elif self.match(TT.COMMA):
+            if self.match(TT.COMMA):
                 new_fields = self.multi_decl(name)
                 fields += new_fields
+            else:
+                field = self.simple_decl(name)
+                fields.append(field)
             self.end_stmt()
         return fields
 
-- 
2.43.0


From 52806e70ad2da246dc8580fc697c14e2de1726c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 15/54] fix: require the end of every usa statement

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index b4aaeb1..e53bf38 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -357,6 +357,7 @@ class Parser:
         self.consume(TT.ARROW)
         if self.match(TT.IDENTIFIER):
             alias = self.consume(TT.IDENTIFIER)
+            self.end_stmt()
             return ast.Usa(
                 token, usa_mode=ast.UsaMode.Scoped, module=module, alias=alias
             )
@@ -368,6 +369,7 @@ class Parser:
                 self.consume(TT.COMMA)
                 idents.append(self.consume(TT.IDENTIFIER).lexeme)
             self.consume(TT.RBRACKET)
+            self.end_stmt()
             return ast.Usa(
                 token, usa_mode=ast.UsaMode.Item, module=module, items=idents
             )
-- 
2.43.0


From 46c28bd0b453dd3c022a2e02eff25d8060fe1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 16/54] fix: report integers that are too large as before

---
 amanda/compiler/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index e53bf38..0d6ead3 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -149,7 +149,11 @@ class Lexer:
         while len(digits) > 19 and int(digits[0]) == 0:
             digits = digits[1:]
         if len(digits) > 19 or int(digits) > self.MAX_INT:
-            self.error(self.INVALID_NUMBER)
+            raise AmandaError.common_error(
+                self.filename,
+                f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{self.MAX_INT}'",
+                self.line,
+            )
         return Token(
             TT.INTEGER, int(digits), self.line, self.pos - (len(result) + 1)
         )
-- 
2.43.0


From e8643b2384aee5ebf0365c86c83baaee47faef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 17/54] fix: simplify the check for integers that are too large

---
 amanda/compiler/parse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 0d6ead3..ec18266 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -144,18 +144,19 @@ class Lexer:
                 TT.REAL, real, self.line, self.pos - (len(result) + 1)
             )
 
-        # Leading zeros don't count, the limit has 19 digits
-        digits = result
-        while len(digits) > 19 and int(digits[0]) == 0:
-            digits = digits[1:]
-        if len(digits) > 19 or int(digits) > self.MAX_INT:
+        try:
+            value = int(result)
+        except ValueError:
+            # Python can't convert numbers with thousands of digits
+            value = self.MAX_INT + 1
+        if value > self.MAX_INT:
             raise AmandaError.common_error(
                 self.filename,
                 f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{self.MAX_INT}'",
                 self.line,
             )
         return Token(
-            TT.INTEGER, int(digits), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, value, self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
-- 
2.43.0


From 5eda9d5efb93ab9282fad763762fb21a3faabc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 18/54] fix: report the line of a format string that is not
 valid

---
 amanda/compiler/parse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index ec18266..8d7cd6d 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1202,19 +1202,22 @@ class Parser:
             char = format_str.read(1)
         if char == "":
             self.error(
-                "String de formatação inválida. Expressões devem ser delimitadas por '{' e '}'"
+                "String de formatação inválida. Expressões devem ser delimitadas por '{' e '}'",
+                token.line,
             )
 
         # Parse expression
         expr_str = expr.getvalue().strip()
         if not len(expr_str):
             self.error(
-                "String de formatação inválida. Expressões vazias não são permitidas"
+                "String de formatação inválida. Expressões vazias não são permitidas",
+                token.line,
             )
         # Cannot nest fstrings
         if expr_str[:2] in ("f'", 'f"'):
             self.error(
-                "String de formatação inválida. Não pode ter uma f-string dentro de outra f-string"
+                "String de formatação inválida. Não pode ter uma f-string dentro de outra f-string",
+                token.line,
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
-- 
2.43.0


From b8e8d5ed717bf0105a763487567e278a1988f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 19/54] fix: try the arms of iguala in source order, and keep
 rows apart

---
 amanda/compiler/check/exhaustiveness.py | 36 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..5ae1494 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -53,12 +53,20 @@ class Row:
     guard: int | None
     body: Body
 
+    def copy(self) -> Row:
+        # A row that ends up in several cases can't share its columns and
+        # bindings among them
+        return Row(
+            list(self.columns),
+            self.guard,
+            Body(list(self.body.bindings), self.body.value),
+        )
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
-        try:
-            idx = list(map(lambda c: c.variable, self.columns)).index(variable)
-            return self.columns.pop(idx)
-        except ValueError:
-            return None
+        for idx, column in enumerate(self.columns):
+            if column.variable is variable:
+                return self.columns.pop(idx)
+        return None
 
 
 @dataclass
@@ -354,18 +362,22 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
+                index = tested.get(key)
+                if index is not None:
                     raw_cases[index][2].append(row)
                     continue
 
+                # The rows that match any value and come before this one
+                # must be tested before it
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                raw_cases.append(
+                    (cons, [], [*map(Row.copy, fallback_rows), row])
+                )
             else:
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.copy())
                 fallback_rows.append(row)
 
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
-
         cases = list(
             map(
                 lambda case: Case(
@@ -419,8 +431,8 @@ class IgualaCompiler:
                         cols.append(Column(var, pat))
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
-                for _, _, rows in cases:
-                    rows.append(row)
+                for _, _, case_rows in cases:
+                    case_rows.append(row.copy())
 
         return list(
             map(
-- 
2.43.0


From af289a0afef8afe0e48a21430eae5a8555f3a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 20/54] fix: name missing patterns that contain texts

---
 amanda/compiler/check/exhaustiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 5ae1494..085aa34 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -218,8 +218,8 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
-                            terms.append(Term(var, "_", []))
+                        case IntCons(val) | StrCons(val):
+                            terms.append(Term(var, str(val), []))
                         case VariantCons(name=name):
                             args = case.arguments
                             terms.append(Term(var, name, args))
-- 
2.43.0


From 6f93e6416bd68004434923d3baed957af86948c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 21/54] fix: treat texts in patterns alike, whatever their
 quotes

---
 amanda/compiler/check/exhaustiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 085aa34..8c0987e 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -357,7 +357,8 @@ class IgualaCompiler:
                         cons = IntCons(num)
                     case ast.StrPattern(val):
                         val = val.lexeme
-                        key = val
+                        # Both kinds of quotes delimit the same texts
+                        key = val[1:-1]
                         cons = StrCons(val)
                     case _:
                         raise NotImplementedError("Invalid pattern")
-- 
2.43.0


From b9297c0872d1959551166ada0c6415bf666bb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 22/54] fix: check the patterns inside patterns, and their
 number

---
 amanda/compiler/check/iguala.py | 102 ++++++++++++++++++++------------
 amanda/compiler/error.py        |   4 ++
 2 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..17ff0f8 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -80,7 +80,6 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 def check_binding_pattern(
     checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
 ):
-    arm.pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -94,53 +93,78 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
-        case ast.ADTPattern(adt, args):
-            checker.visit(adt)
-            sym = tycheck.unwrap(
-                adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
-            )
-            match sym:
-                case Variant(params=params):
-                    if not sym.is_callable() and args:
-                        checker.error(
-                            Errors.VARIANT_TAKES_NO_ARGS,
-                            variant=sym.qualified_name(),
-                        )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
-                case _:
-                    tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
-                sym.tag, sym.uniao, sym.qualified_name(), sym.params
+def check_adt_pattern(
+    checker: Checker, arm: ast.IgualaArm, pattern: ast.ADTPattern
+):
+    adt = pattern.adt
+    if isinstance(adt, ast.Path):
+        checker.visit(adt)
+        sym = adt.symbol
+    else:
+        sym = checker.ctx_scope.resolve(adt.token.lexeme)
+    if not isinstance(sym, Variant):
+        checker.error_with_loc(
+            pattern.token,
+            Errors.PATTERN_IS_NOT_VARIANT,
+            name=pattern.token.lexeme,
+        )
+    args = pattern.args
+    if not sym.is_callable() and args:
+        checker.error_with_loc(
+            pattern.token,
+            Errors.VARIANT_TAKES_NO_ARGS,
+            variant=sym.qualified_name(),
+        )
+    if len(args) != len(sym.params):
+        checker.error_with_loc(
+            pattern.token,
+            Errors.INVALID_PATTERN_ARITY,
+            variant=sym.qualified_name(),
+            expected=len(sym.params),
+            received=len(args),
+        )
+    for n, (arg, ty) in enumerate(zip(args, sym.params), 1):
+        check_pattern(checker, arm, arg, ty)
+        if arg.eval_type != ty:
+            checker.error_with_loc(
+                arg.token,
+                Errors.INVALID_PATTERN_ARG,
+                n=n,
+                param_type=ty,
+                eval_type=arg.eval_type,
             )
+    pattern.eval_type = sym.uniao
+    pattern.cons = VariantCons(
+        sym.tag, sym.uniao, sym.qualified_name(), sym.params
+    )
+
+
+def check_pattern(
+    checker: Checker, arm: ast.IgualaArm, pattern: ast.Pattern, target_ty: Type
+):
+    match pattern:
+        case ast.ADTPattern():
+            check_adt_pattern(checker, arm, pattern)
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
+            pattern.eval_type = Builtins.Texto
         case ast.BindingPattern(var=var):
+            pattern.eval_type = target_ty
             check_binding_pattern(checker, arm, target_ty, var)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
-        checker.error(
-            Errors.INVALID_PATTERN_TYPE,
-            expected=target_ty,
-            received=arm.pattern.eval_type,
-        )
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    target_ty = iguala.target.eval_type
+    check_pattern(checker, arm, arm.pattern, target_ty)
+    if arm.pattern.eval_type != target_ty:
+        checker.error_with_loc(
+            arm.pattern.token,
+            Errors.INVALID_PATTERN_TYPE,
+            expected=target_ty,
+            received=arm.pattern.eval_type,
+        )
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..a91f6f2 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -13,6 +13,10 @@ class Errors:
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
+    PATTERN_IS_NOT_VARIANT = (
+        "Padrão inválido. '{name}' não é uma variante de uma união"
+    )
+    INVALID_PATTERN_ARITY = "Padrão inválido. A variante '{variant}' esperava receber {expected} argumento(s), mas recebeu {received}"
     INVALID_PATTERN_ARG = "Argumento {n} do padrão inválido. Esperava-se um argumento do tipo '{param_type}' mas recebeu o tipo '{eval_type}'"
     INVALID_PATTERN_TYPE = "Padrão inválido. Esperava-se um padrão do tipo '{expected}' mas utilizou-se um do tipo '{received}'"
     NON_EXHAUSTIVE_PATTERN_MATCH_FINITE = "A instrução iguala deve especificar alternativas para todos os valores possíveis do tipo '{ty}'. Padrões em falta: \n{missing_patterns}"
-- 
2.43.0


From 60b66c7228563d7514ca440d76ab2a14532b874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 23/54] fix: refuse patterns with integers that are too large

---
 amanda/compiler/check/checker.py |  1 +
 amanda/compiler/check/core.py    | 13 ++++++++-----
 amanda/compiler/check/iguala.py  |  3 ++-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..e1f543d 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -19,6 +19,7 @@ class Checker(Protocol):
     def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
+    def validate_int(self, token: Token): ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
     def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope: ...
     def define_symbol(
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..346a5f6 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -774,11 +774,7 @@ class Analyzer(ast.Visitor):
         scope = self.ctx_scope
         if constant == TT.INTEGER:
             node.eval_type = scope.resolve("int")
-            int_value = int(node.token.lexeme)
-            if int_value > MAX_AMA_INT:
-                self.error(
-                    f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'"
-                )
+            self.validate_int(node.token)
         elif constant == TT.REAL:
             node.eval_type = Builtins.Real
         elif constant == TT.STRING:
@@ -788,6 +784,13 @@ class Analyzer(ast.Visitor):
         elif constant == TT.NULO:
             node.eval_type = Builtins.Nulo
 
+    def validate_int(self, token: Token):
+        if int(token.lexeme) > MAX_AMA_INT:
+            self.error_with_loc(
+                token,
+                f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'",
+            )
+
     def visit_listliteral(self, node):
         elements = node.elements
         list_type = self.get_type(node.list_type)
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 17ff0f8..69f5683 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -145,7 +145,8 @@ def check_pattern(
     match pattern:
         case ast.ADTPattern():
             check_adt_pattern(checker, arm, pattern)
-        case ast.IntPattern():
+        case ast.IntPattern(val):
+            checker.validate_int(val)
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
-- 
2.43.0


From 832492bb845fb408061efc72147bd66ad70a597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 24/54] fix: check every arm of iguala exactly once, with its
 own variables

---
 amanda/compiler/check/exhaustiveness.py | 20 +++-----------------
 amanda/compiler/check/iguala.py         | 14 ++++++++------
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 8c0987e..08ce63b 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -232,22 +232,6 @@ class Match:
                 if node := fallback:
                     self.add_missing_patterns(node, terms, missing)
 
-    def declare_block_symbols(self):
-        self._declare_block_symbols(self.tree)
-
-    def _declare_block_symbols(self, tree: Decision):
-        match tree:
-            case DSuccess(body):
-                for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
-            case DSwitch(cases=cases):
-                for case in cases:
-                    self._declare_block_symbols(case.body)
-            case _:
-                pass
-
 
 @dataclass
 class IgualaCompiler:
@@ -297,7 +281,9 @@ class IgualaCompiler:
 
         if rows and not rows[0].columns:
             row = rows.pop(0)
-            self.diagnostics.reachable.append(row.body.value)
+            block = row.body.value
+            if not any(block is b for b in self.diagnostics.reachable):
+                self.diagnostics.reachable.append(block)
             guard = row.guard
             return (
                 DGuard(guard, row.body, self._compile_rows(rows))
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 69f5683..8591853 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -60,12 +60,14 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 iguala.token,
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
-    # Validate reachable blocks
-    tree.declare_block_symbols()
-    first_block = tree.diagnostics.reachable[0]
-    checker.visit(first_block)
-    iguala.eval_type = first_block.eval_type
-    for block in tree.diagnostics.reachable[1:]:
+    # Validate the blocks of all arms, including the ones that can't be reached
+    blocks = list(tree.diagnostics.reachable)
+    for arm in iguala.arms:
+        if not any(arm.body is block for block in blocks):
+            blocks.append(arm.body)
+    checker.visit(blocks[0])
+    iguala.eval_type = blocks[0].eval_type
+    for block in blocks[1:]:
         checker.visit(block)
         if block.eval_type != iguala.eval_type:
             checker.error(
-- 
2.43.0


From 055a84844cb364449f23355b69f25f2f734986f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 25/54] fix: generate code for every alternative of iguala, and
 for any target

---
 amanda/compiler/codegen.py | 65 +++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..8434928 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -558,9 +558,9 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
@@ -748,7 +748,12 @@ class ByteGen:
         self.exit_block()
 
     def gen_iguala(self, node: ast.Iguala):
+        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
+            # The value is tested many times, but computed only once
+            self.gen(node.target)
+            self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
+        self.gen_auto_cast(node.prom_type)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -759,8 +764,11 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+                if body.value.eval_type == Builtins.Vazio:
+                    # Every alternative leaves a value, as calls do
+                    self.load_const("falso")
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -782,47 +790,40 @@ class ByteGen:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
-            case VariantCons(name=name):
-                cargs = case.arguments
-                if not cargs:
-                    return
-                for arg in cargs:
+            case VariantCons() if case.arguments:
+                self.load_variable(var)
+                for arg in case.arguments:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
                     self.load_const(idx)
-                self.append_op(OpCode.BIND_MATCH_ARGS, len(cargs))
-            case x:
+                self.append_op(OpCode.BIND_MATCH_ARGS, len(case.arguments))
+            case _:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
-        after_if = self.new_label()
-        after_block = self.new_label()
+        after_cases = self.new_label()
 
-        first_case = cases[0]
-        # Generate test
-        self.gen_iguala_test(var, first_case.constructor)
-        self.append_op(OpCode.JUMP_IF_FALSE, after_block)
-
-        self.gen_iguala_case_bindings(var, first_case)
-        self.gen_iguala_from_ir(node, first_case.body)
-        self.append_op(OpCode.JUMP, after_if)
-        self.patch_label_loc(after_block)
-
-        for case in cases[1:]:
-            after_elsif = self.new_label()
+        for case in cases:
+            after_case = self.new_label()
             self.gen_iguala_test(var, case.constructor)
-            self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
 
             self.gen_iguala_case_bindings(var, case)
             self.gen_iguala_from_ir(node, case.body)
-            self.append_op(OpCode.JUMP, after_if)
-            self.patch_label_loc(after_elsif)
+            self.append_op(OpCode.JUMP, after_cases)
+            self.patch_label_loc(after_case)
 
-        self.patch_label_loc(after_if)
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+
+        self.patch_label_loc(after_cases)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
         func_symbol = node.symbol
-- 
2.43.0


From 4436a5722f2cc984458b71a6c8acb2e6540c01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 26/54] fix: give the variables of nested scopes different ids

---
 amanda/compiler/check/core.py   |  2 +-
 amanda/compiler/symbols/core.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 346a5f6..dc694cc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,7 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..85fb53b 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -164,8 +164,16 @@ class Scope:
     def count(self) -> int:
         return len(self.symbols)
 
+    def depth(self) -> int:
+        if self.enclosing_scope is None:
+            return 0
+        return self.enclosing_scope.depth() + 1
+
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
+        # The variables of nested scopes may be used at the same time
+        symbol = VariableSymbol(
+            f"_t{self.depth()}_{self.count()}_", type, module
+        )
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From a0711d48c4111a55146aa260da2d440ab3f00090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 27/54] fix: keep the variables of the compiler apart from the
 ones of the program

---
 amanda/compiler/check/iguala.py | 2 +-
 amanda/compiler/symbols/core.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 8591853..8161ce5 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -31,7 +31,7 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
             iguala.target_binding = target.var_symbol
         case _:
             sym = symbols.VariableSymbol(
-                "_target_", target.eval_type, checker.ctx_module
+                " target", target.eval_type, checker.ctx_module
             )
             checker.define_symbol(sym, checker.scope_depth, scope)
             iguala.target_binding = sym
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 85fb53b..9bc4fbf 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -170,9 +170,10 @@ class Scope:
         return self.enclosing_scope.depth() + 1
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        # The variables of nested scopes may be used at the same time
+        # The variables of nested scopes may be used at the same time.
+        # No identifier contains blanks.
         symbol = VariableSymbol(
-            f"_t{self.depth()}_{self.count()}_", type, module
+            f" t{self.depth()}_{self.count()}", type, module
         )
         self.define(symbol.name, symbol)
         return symbol
-- 
2.43.0


From c993464b9161d9c59dc335cf0eed1669690495e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 28/54] fix: check returns in all branches, and jumps in every
 loop

---
 amanda/compiler/check/core.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index dc694cc..96352b5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,22 +100,27 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
+    def has_return_escolha(self, node: ast.Escolha):
+        return (
+            False
+            if not node.default_case
+            else self.has_return(node.default_case)
+            and all(self.has_return(case.block) for case in node.cases)
+        )
+
     def has_return_igualaarm(self, node: ast.IgualaArm):
         return self.has_return_block(node.body)
 
     def has_return_iguala(self, node: ast.Iguala):
-        has_return = True
-        has_var_pattern = False
-        for arm in node.arms:
-            has_return = has_return and self.has_return(arm)
-            if not has_return:
-                return False
-            if isinstance(arm.pattern, ast.BindingPattern):
-                has_var_pattern = True
-        return has_return and has_var_pattern
+        # Some arm always matches, because the arms must be exhaustive
+        return all(self.has_return(arm) for arm in node.arms)
 
     def has_return_seiguala(self, node: ast.SeIguala):
         """Method checks for return within
@@ -1082,7 +1087,7 @@ class Analyzer(ast.Visitor):
             self.ctx_node = node
             self.error(Errors.PRODUZ_OUTSIDE_BLOCK)
         block_last_instruction = self.ctx_yield_block.children[-1]
-        if block_last_instruction != node:
+        if block_last_instruction is not node:
             self.error(Errors.PRODUZ_MUST_BE_LAST_INSTRUCTION)
         expr = unwrap(node.exp)
         self.visit(expr)
@@ -1159,8 +1164,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
-- 
2.43.0


From 9c565362d3d34ddbc57d1b14cb5c46c0763c69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 29/54] fix: methods of different types may have the same name,
 and call themselves

---
 amanda/compiler/check/core.py   | 12 +++++++-----
 amanda/compiler/codegen.py      |  3 ++-
 amanda/compiler/symbols/core.py | 11 +++++++++--
 amanda/compiler/transform.py    | 22 ++--------------------
 amanda/compiler/types/core.py   | 19 +++++++++++++------
 5 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 96352b5..84dd75b 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -609,6 +609,8 @@ class Analyzer(ast.Visitor):
 
         # Checking target type
         target_ty = self.get_type(node.target_ty)
+        if isinstance(target_ty, (Vector, TypeVar)):
+            self.error(f"Não pode declarar métodos para o tipo '{target_ty}'")
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
@@ -651,6 +653,9 @@ class Analyzer(ast.Visitor):
                 param.name,
                 param,
             )
+        # TODO: Refactor method definitions to not rely on the underlying type
+        node.symbol = symbol
+        target_ty.define_method(symbol)
         # Body of builtin methods are not checked
         if not symbol.is_builtin():
             self.validate_return(
@@ -659,9 +664,6 @@ class Analyzer(ast.Visitor):
                 f"{method_desc} não possui a instrução 'retorna'",
             )
             self.check_function_body(node, symbol, scope)
-        # TODO: Refactor method definitions to not rely on the underlying type
-        node.symbol = symbol
-        target_ty.define_method(symbol)
         self.leave_ty_ctx()
 
     def get_generic_params(
@@ -909,7 +911,7 @@ class Analyzer(ast.Visitor):
             and not node.child_of(ast.Call)
             and not field_sym.can_evaluate()
         ):
-            self.error(self.INVALID_REF, name=field_sym.name)
+            self.error(self.INVALID_REF, name=field)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
@@ -1332,7 +1334,7 @@ class Analyzer(ast.Visitor):
     ):
         if arg_len != arity:
             if isinstance(symbol, symbols.MethodSym):
-                name = symbol.target_ty.full_field_path(symbol.name)
+                name = symbol.name
             callable_desc = (
                 f"o método {name}" if is_method else f"a função {name}"
             )
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 8434928..2643eac 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -835,7 +835,8 @@ class ByteGen:
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
-        self.func_locals = {}
+        # The target of a method is its first argument
+        self.func_locals = {"alvo": 0} if node.is_method() else {}
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 9bc4fbf..3c1b370 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -91,7 +91,14 @@ class MethodSym(FunctionSymbol):
         module: Module,
         params: dict[str, VariableSymbol] = {},
     ):
-        super().__init__(name, return_ty, module=module, params=params)
+        # Types may have methods with the same name
+        super().__init__(
+            target_ty.full_field_path(name),
+            return_ty,
+            module=module,
+            params=params,
+        )
+        self.method_name = name
         self.target_ty = target_ty
         self.return_ty = return_ty
         self.is_property = True
@@ -103,7 +110,7 @@ class MethodSym(FunctionSymbol):
     def bind(self, **ty_args: Type) -> Typed:
         new_fn = cast(FunctionSymbol, super().bind(**ty_args))
         return MethodSym(
-            self.name,
+            self.method_name,
             target_ty=self.target_ty,
             return_ty=new_fn.type,
             module=self.module,
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..8424a15 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -6,7 +6,6 @@ from amanda.compiler.tokens import TokenType as TT, Token
 from amanda.compiler.symbols.core import (
     FunctionSymbol,
     MethodSym,
-    VariableSymbol,
 )
 from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 
@@ -135,31 +134,15 @@ class ASTTransformer:
         if callee.of_type(ast.Get) and callee.target.eval_type.is_module():
             # A call to a function in another module via a module alias
             sym = cast(FunctionSymbol, node.symbol)
-            # Add func symbol to symbol table
-            # Prefix with the name of the module to avoid overwriting
-            # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
-            """
-            call_node = ast.Call(callee=var, fargs=node.fargs)
-            call_node.symbol = sym
-            return call_node
-            """
         elif isinstance(node.symbol, MethodSym):
             # Common method call
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
             node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
         else:
             raise NotImplementedError("Unknown case")
         var = var_node(sym.name, node.token)
+        var.var_symbol = sym
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
@@ -169,9 +152,8 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
             var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
+            var.var_symbol = sym
             return var
         else:
             return (
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index e495ad8..5f7e620 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -69,9 +69,8 @@ class Primitive(Type):
         return False
 
     def define_method(self, method: Symbol):
-        Primitive.methods.setdefault(self.tag, {})[method.name] = cast(
-            MethodSym, method
-        )
+        method = cast(MethodSym, method)
+        Primitive.methods.setdefault(self.tag, {})[method.method_name] = method
 
     def get_property(self, prop: str) -> Symbol | None:
         return Primitive.methods.get(self.tag, {}).get(prop)
@@ -319,7 +318,6 @@ class Vector(Type):
 
     def define_method(self, method: Symbol):
         raise NotImplementedError("Do not know what I have to do here")
-        # self.methods[method.name] = cast(MethodSym, method)
 
     def promotion_to(self, other: Type) -> Type | None:
         if not isinstance(other, Primitive):
@@ -416,7 +414,8 @@ class Registo(Type):
         return self.fields.get(prop, self.methods.get(prop))
 
     def define_method(self, method: Symbol):
-        self.methods[method.name] = cast(MethodSym, method)
+        method = cast(MethodSym, method)
+        self.methods[method.method_name] = method
 
     def supports_fields(self) -> bool:
         return True
@@ -552,7 +551,8 @@ class Uniao(Type):
         ]
 
     def define_method(self, method: Symbol):
-        self.methods[method.name] = cast(MethodSym, method)
+        method = cast(MethodSym, method)
+        self.methods[method.method_name] = method
 
     def supports_fields(self) -> bool:
         return True
@@ -648,6 +648,13 @@ class ConstructedTy(Type):
 
     def get_property(self, prop) -> Symbol | None:
         prop = self.generic_ty.get_property(prop)
+        if (
+            isinstance(prop, MethodSym)
+            and isinstance(prop.target_ty, ConstructedTy)
+            and prop.target_ty != self
+        ):
+            # The method belongs to the same type with other arguments
+            return None
         return (
             prop if not prop else cast(Typed, prop).bind(**self.bound_ty_args)
         )
-- 
2.43.0


From 3c9dd0cdb604801de4afd800fdd308ea1ca5a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 30/54] fix: quebra and continua act on the enclosing para

---
 amanda/compiler/codegen.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 2643eac..0efa670 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -717,6 +717,13 @@ class ByteGen:
         # BEGIN LOOP
         after_loop = self.new_label()
         loop = self.new_label()
+        update = self.new_label()
+        # Set the current loop exit and the place where 'continua' goes
+        loop_exit_state = self.ctx_loop_exit
+        self.ctx_loop_exit = after_loop
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_start = update
+
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -734,6 +741,7 @@ class ByteGen:
         for child in block.children:
             self.gen(child)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -747,6 +755,11 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        # Restore old loop start
+        self.ctx_loop_start = loop_start_state
+        # Restore old loop exit
+        self.ctx_loop_exit = loop_exit_state
+
     def gen_iguala(self, node: ast.Iguala):
         if not isinstance(node.target, (ast.Variable, ast.Alvo)):
             # The value is tested many times, but computed only once
-- 
2.43.0


From 5c726e8caf2d28fdf11f65cc26a0dab18ccbd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 31/54] fix: generate code for unary plus

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 0efa670..1c717b7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -586,7 +586,7 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
-        else:
+        elif operator != TT.PLUS:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-- 
2.43.0


From c0e76ea88913e9e5b76904f5823bbb2255695691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 32/54] fix: generate code for variants of other modules

---
 amanda/compiler/codegen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 1c717b7..285f614 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -257,6 +257,8 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            # Variants have the same tag in every module
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
@@ -516,8 +518,7 @@ class ByteGen:
             raise ValueError("Symbol should have been resolved before codegen!")
         match symbol:
             case Variant():
-                tag = self.uniao_variants[symbol.variant_id()]
-                self.load_const(tag)
+                self.load_const(self.get_variant_index(symbol))
                 if not symbol.is_callable():
                     # No args means we can generate the code for creating the variant here
                     self.append_op(OpCode.BUILD_VARIANT, 0)
@@ -796,8 +797,7 @@ class ByteGen:
                 self.append_op(OpCode.OP_EQ)
             case VariantCons(tag=tag, uniao=uniao):
                 variant = uniao.variant_by_tag(tag)
-                # TODO: Fix this please!!!
-                idx = self.uniao_variants[variant.variant_id()]
+                idx = self.get_variant_index(variant)
                 self.append_op(OpCode.MATCH_VARIANT, idx)
             case _:
                 unreachable("Unknown constructor")
-- 
2.43.0


From bbbad503f7e7ea84eb89121f0c6f9771b2aa51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 33/54] fix: map every instruction to its own line

---
 amanda/compiler/codegen.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 285f614..303d5b2 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -195,9 +195,9 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps bytecode to source lines. The items are the first offset, the
+        # last offset and the line.
+        self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -276,18 +276,10 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
+        for start, end, lineno in self.src_map:
             if lineno == 0:
                 continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+            src_map.extend([start, end, lineno])
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -317,15 +309,12 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
-        else:
-            self.src_map[self.lineno] = [self.ip]
+        op_start = self.ip
         self.ip += op.op_size() // OP_SIZE
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            self.src_map[-1][1] = self.ip - 1
+        else:
+            self.src_map.append([op_start, self.ip - 1, self.lineno])
         self.ops.append((op, args))
 
     def load_const(self, const):
@@ -425,11 +414,14 @@ class ByteGen:
         node_class = type(node).__name__.lower()
         method_name = f"gen_{node_class}"
         gen_method = getattr(self, method_name, self.bad_gen)
+        prev_lineno = self.lineno
         self.lineno = getattr(node, "lineno", self.lineno)
         if node_class == "block":
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # What follows belongs to the line of the parent
+        self.lineno = prev_lineno
         return result
 
     def enter_block(self, scope):
-- 
2.43.0


From ab411cc1d68d91e82d3850463b3786d9417af732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 34/54] fix: convert values implicitly whatever expression
 computes them

---
 amanda/compiler/codegen.py   | 24 ++++++++++++++----------
 amanda/compiler/transform.py |  4 ++++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 303d5b2..e87803c 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -12,8 +12,9 @@ from amanda.compiler.check.exhaustiveness import (
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
-from amanda.compiler.types.builtins import Builtins
+from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -420,6 +421,9 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # The value of an assignment is not on the stack
+        if isinstance(node, ast.Expr) and not isinstance(node, ast.Assign):
+            self.gen_auto_cast(node)
         # What follows belongs to the line of the parent
         self.lineno = prev_lineno
         return result
@@ -467,7 +471,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.name
@@ -497,11 +500,8 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
         var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -565,6 +565,7 @@ class ByteGen:
             var_sym = expr.left.var_symbol
             name = expr.left.token.lexeme
             self.load_variable(var_sym)
+            self.gen_auto_cast(expr)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -583,7 +584,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -642,7 +642,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -759,7 +758,6 @@ class ByteGen:
             self.gen(node.target)
             self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
-        self.gen_auto_cast(node.prom_type)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -887,7 +885,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
@@ -915,7 +912,14 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
+    def gen_auto_cast(self, node: ast.Expr):
+        prom_type = node.prom_type
+        if node.eval_type == Builtins.Int:
+            # The value of an option is not wrapped
+            while prom_type and prom_type.is_constructed_from(
+                SrcBuiltins.Opcao
+            ):
+                prom_type = cast(ConstructedTy, prom_type).bound_ty_args["T"]
         if not prom_type or prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 8424a15..009e555 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -38,6 +38,10 @@ class ASTTransformer:
                 f"Node of type {type(node).__name__} has no parent."
             )
         parent.for_each_child(self.replace_child(parent, node, new_node))
+        new_node.parent = parent
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         return new_node
 
     def replace_child(
-- 
2.43.0


From d1fc54a72532f5ba2de06ef8d629078554aec473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 35/54] fix: check the target of indexed assignments, and
 conditions of any type

---
 amanda/compiler/check/core.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 84dd75b..605ad61 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -882,13 +882,14 @@ class Analyzer(ast.Visitor):
 
     def visit_get(self, node: ast.Get):
         target = node.target
-        ty_sym = target.eval_type  # type: ignore
         self.visit(target)
         if (
             not target.eval_type.supports_fields()
             and not target.eval_type.supports_methods()
         ):
-            self.error("O Tipo '{ty_sym.name}' nenhum atributo ou método")
+            self.error(
+                f"O Tipo '{target.eval_type}' nenhum atributo ou método"
+            )
         ty_sym = target.eval_type  # type: ignore
         field = node.member.lexeme
         field_sym = cast(Typed, ty_sym.get_property(field))
@@ -959,15 +960,15 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
-        if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+        target_ty = index.target.eval_type
+        if not target_ty.supports_index_set():
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if target_ty == Builtins.Texto
+                else f"Itens do tipo '{target_ty}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
             self.error(
@@ -1105,7 +1106,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1118,7 +1119,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type not in (Builtins.Int, Builtins.Texto):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1143,7 +1144,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1267,7 +1268,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
-- 
2.43.0


From d3ad47c26a39315f6d3e2b7e3e638476c02bccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 36/54] fix: drop the values a function without locals leaves
 on the stack

The unused value of a call inside such a function was found under its
return value by the caller.
---
 amanda/vm/src/vm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..96b531b 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -359,9 +359,11 @@ impl<'a> AmaVM<'a> {
                                 func.bp = self.sp - (args - 1);
                                 let extra = func.locals - args as usize;
                                 self.reserve_stack_space(extra);
-                            } else if func.locals > 0 {
+                            } else {
                                 func.bp = self.sp + 1;
-                                self.reserve_stack_space(func.locals);
+                                if func.locals > 0 {
+                                    self.reserve_stack_space(func.locals);
+                                }
                             }
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
-- 
2.43.0


From 74cbc35734d45d301164134afb8bbb185263a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 37/54] fix: reserve space for all the locals of the main
 program

---
 amanda/vm/src/vm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 96b531b..3d0064c 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -101,6 +101,9 @@ impl<'a> AmaVM<'a> {
     }
 
     fn init(&mut self, main: AmaFunc<'a>) {
+        if self.values.len() < main.locals {
+            self.values.resize(main.locals, AmaValue::None);
+        }
         self.sp = self.values.len() as isize - 1;
         self.frames.push(main).unwrap();
         self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
-- 
2.43.0


From c05892f734fcaaeb17c825cc76136bda3688f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 38/54] fix: return to the module that is being executed

A call at the top level of an imported module returned to the main module.
---
 amanda/vm/src/vm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 3d0064c..21f632e 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -66,6 +66,8 @@ pub struct AmaVM<'a> {
     //globals: &'a mut MGlobals<'a>, 
 
     main_module: &'a Module<'a>, 
+    //Module whose top level code is being executed
+    entry_module: &'a Module<'a>, 
     ctx_module: Option<&'a Module<'a>>,
     frames: FrameStack<'a>,
     values: Vec<AmaValue<'a>>,
@@ -90,6 +92,7 @@ impl<'a> AmaVM<'a> {
         let builtin_defs = builtins::definitions();
         AmaVM {
             main_module, 
+            entry_module: main_module, 
             ctx_module: None,
             frames: FrameStack::new(),
             values: vec![AmaValue::None; DEFAULT_STACK_SIZE],
@@ -175,6 +178,7 @@ impl<'a> AmaVM<'a> {
             }
         }
         module.initialize(&self.builtin_defs);
+        self.entry_module = module;
         self.ctx_module = Some(module);
         self.init(self.ctx_module.unwrap().main);
 
@@ -405,7 +409,7 @@ impl<'a> AmaVM<'a> {
                     let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
                         &self.imports[mod_idx]
                     } else {
-                        self.main_module
+                        self.entry_module
                     };
                     self.ctx_module.replace(ctx_module);
                     continue;
-- 
2.43.0


From 0001e19e6afb1b79fbd7f749640ed1880d0c27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 39/54] fix: report runtime errors with the lines of the module
 of each function

---
 amanda/vm/src/vm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 21f632e..83e4191 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -572,17 +572,22 @@ impl<'a> AmaVM<'a> {
             String::from("")
         };
         while let Ok(func) = self.frames.pop() {
+            let module = if let FuncModule::Imported(mod_idx) = func.module {
+                &self.imports[mod_idx]
+            } else {
+                self.entry_module
+            };
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, &module.src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, &module.src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From df823d8e4fbf307e022f553259174edae8c15907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 40/54] fix: go back to the enclosing scope after iguala

The scope of an alternative is not the direct child of the scope of the
block that contains the instruction, so names were looked up in the scope
of a function after its end.
---
 amanda/compiler/codegen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index e87803c..bad1666 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -183,6 +183,8 @@ class ByteGen:
         self.ama_lineno: int = 1  # tracks lineno in input amanda src
         self.program_symtab: symbols.Scope = None  # type: ignore
         self.scope_symtab: symbols.Scope = None  # type: ignore
+        # Scopes of the blocks that enclose the current one
+        self.outer_scopes: list[symbols.Scope] = []
         self.func_locals: dict[str, int] = {}
         self.const_table: dict[str, int] = {}
         self.uniao_variants: dict[str, int] = {}
@@ -430,12 +432,12 @@ class ByteGen:
 
     def enter_block(self, scope):
         self.depth += 1
+        self.outer_scopes.append(self.scope_symtab)
         self.scope_symtab = scope
 
     def exit_block(self):
         self.depth -= 1
-        self.scope_symtab = self.scope_symtab.enclosing_scope
-        num_locals = len(self.func_locals)
+        self.scope_symtab = self.outer_scopes.pop()
 
     def compile_block(self, node):
         self.enter_block(node.symbols)
-- 
2.43.0


From 31f944a63ffa7a17b3648b7bd084bc9d6b9c1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 41/54] fix: compute the value of escolha once

The value was computed again for every case, and conversions and calls
inside the cases and their blocks were not transformed.
---
 amanda/compiler/ast.py        |  1 +
 amanda/compiler/check/core.py |  6 +++++
 amanda/compiler/codegen.py    | 18 ++++++++++++++
 amanda/compiler/transform.py  | 45 +----------------------------------
 4 files changed, 26 insertions(+), 44 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 1814c84..ce21639 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -289,6 +289,7 @@ class Escolha(ASTNode):
         self.expression = expression
         self.cases = cases
         self.default_case = default_case
+        self.target_binding: symbols.VariableSymbol | None = None
 
 
 @dataclass
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 605ad61..8a3b376 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1123,6 +1123,11 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
+        # Variable for the value, so that it is computed only once
+        self.enter_scope()
+        sym = symbols.VariableSymbol(" escolha", expr_type, self.ctx_module)
+        self.define_symbol(sym, self.scope_depth, self.ctx_scope)
+        node.target_binding = sym
         for case in node.cases:
             case_expr = case.expression
             self.visit(case_expr)
@@ -1134,6 +1139,7 @@ class Analyzer(ast.Visitor):
         default_case = node.default_case
         if default_case:
             self.visit(default_case)
+        self.leave_scope()
 
     def visit_iguala(self, node: ast.Iguala):
         igualacheck.check_iguala(self, node)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index bad1666..fb54914 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -671,6 +671,24 @@ class ByteGen:
 
         self.patch_label_loc(after_if)
 
+    def gen_escolha(self, node: ast.Escolha):
+        value = unwrap(node.target_binding)
+        after_cases = self.new_label()
+        self.gen(node.expression)
+        self.set_variable(value)
+        for case in node.cases:
+            after_case = self.new_label()
+            self.gen(case.expression)
+            self.load_variable(value)
+            self.append_op(OpCode.OP_EQ)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
+            self.compile_block(case.block)
+            self.append_op(OpCode.JUMP, after_cases)
+            self.patch_label_loc(after_case)
+        if node.default_case:
+            self.compile_block(node.default_case)
+        self.patch_label_loc(after_cases)
+
     def gen_enquanto(self, node):
         after_loop = self.new_label()
         # Set the current loop exit
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 009e555..c6e8c6e 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -7,7 +7,7 @@ from amanda.compiler.symbols.core import (
     FunctionSymbol,
     MethodSym,
 )
-from amanda.compiler.types.builtins import Builtins, SrcBuiltins
+from amanda.compiler.types.builtins import SrcBuiltins
 
 from typing import cast, Callable
 
@@ -66,49 +66,6 @@ class ASTTransformer:
         if node.of_type(ast.Converta):
             return node
 
-    def transform_escolha(self, node: ast.Escolha) -> ast.ASTNode:
-        token = node.token
-        new_token = lambda tt, lexeme: Token(tt, lexeme, token.line, token.col)
-        equality_op = lambda left, right: ast.BinOp(
-            new_token(TT.DOUBLEEQUAL, "=="),
-            left=left,
-            right=right,
-            ty=Builtins.Bool,
-        )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
-            )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
-                )
-            return se_node
-
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
 
-- 
2.43.0


From 7142a9052d2bdae4d60c20c3dbd565fc83132794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 42/54] fix: refuse programs that do not fit in the operands of
 the VM

Operands were truncated, or the compiler failed with a Python exception.
---
 amanda/__main__.py         |  5 ++++-
 amanda/compiler/codegen.py | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..eae01ea 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -33,7 +33,10 @@ def run_frontend(filename) -> tuple:
 def run_file(args):
     module, imports = run_frontend(args.file)
     compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    try:
+        bin_obj = compiler.compile(imports)
+    except AmandaError as e:
+        throw_error(e)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index fb54914..2c063f7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -1,6 +1,6 @@
 from os import path
 import sys
-from typing import List, cast, Sequence
+from typing import List, NoReturn, cast, Sequence
 from io import StringIO, BytesIO
 from enum import Enum, auto
 from amanda.compiler.check.exhaustiveness import (
@@ -311,7 +311,20 @@ class ByteGen:
             )
         self.labels[label] = self.ip
 
+    def error(self, message: str) -> NoReturn:
+        raise AmandaError.common_error(
+            self.ctx_module.fpath, message, max(self.lineno, 1)
+        )
+
     def append_op(self, op: OpCode, *args: int):
+        if op.op_size() == OP_SIZE * 2 and args[0] >= 2**8:
+            self.error(
+                "Instrução demasiado grande. Só pode usar até 255 argumentos, elementos ou partes"
+            )
+        if op.op_size() == OP_SIZE * 3 and args[0] >= 2**16:
+            self.error(
+                "O programa é demasiado grande. Só pode usar até 65536 variáveis locais ou registos"
+            )
         op_start = self.ip
         self.ip += op.op_size() // OP_SIZE
         if self.src_map and self.src_map[-1][2] == self.lineno:
@@ -464,9 +477,10 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        if idx >= (2**16) - 1:
+            self.error(
+                "O ficheiro é demasiado grande. Só pode usar até 65535 constantes e nomes diferentes"
+            )
         return idx
 
     def gen_constant(self, node: ast.Constant):
-- 
2.43.0


From 79caeab81e80386f992b3a42a11121e2e548eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 43/54] fix: find every use of a variable inside its own
 declaration

Only the last name of the expression was compared with the variable, so
'x: int = x + 1' was accepted and 'nome: texto = p.nome' was refused.
---
 amanda/compiler/check/core.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8a3b376..13b2e7c 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -474,6 +474,16 @@ class Analyzer(ast.Visitor):
             self.ctx_node = node
             self.error(f"O atributo '{name}' já foi declarado neste registo")
 
+    def uses_symbol(self, node: ast.ASTNode, symbol: symbols.Symbol) -> bool:
+        found = getattr(node, "var_symbol", None) is symbol
+
+        def visit_child(child: ast.ASTNode, _):
+            nonlocal found
+            found = found or self.uses_symbol(child, symbol)
+
+        node.for_each_child(visit_child)
+        return found
+
     def visit_vardecl(self, node: ast.VarDecl):
         name = node.name.lexeme
         self.assert_can_use_ident(node, name)
@@ -489,11 +499,12 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
+            self.visit(assign)
+            if self.uses_symbol(assign.right, symbol):
+                self.ctx_node = node
                 self.error(
                     f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
                 )
-            self.visit(assign)
         if self.scope_depth == 0:
             symbol.is_global = True
 
-- 
2.43.0


From 4be3f16ad35c92b201f7f9d24a89352912cc96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 44/54] fix: accept methods and constructors of variants only
 in calls

As arguments of a call, or outside expressions, they were accepted.
---
 amanda/compiler/check/core.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 13b2e7c..b3729e4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -841,6 +841,9 @@ class Analyzer(ast.Visitor):
         assert node.var_symbol
         return sym
 
+    def is_callee(self, node: ast.Expr) -> bool:
+        return node.child_of(ast.Call) and node.parent.callee is node
+
     def visit_path(self, node: ast.Path):
         components = node.components
         name = components[0].token.lexeme
@@ -867,7 +870,7 @@ class Analyzer(ast.Visitor):
         # If variant not referenced in the context of a call
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not self.is_callee(node)
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -912,17 +915,7 @@ class Analyzer(ast.Visitor):
         # Check if valid use of get
         # References to methods can only be used in the context of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not node.child_of(ast.Call)
-            and not field_sym.can_evaluate()
-        ):
+        if not self.is_callee(node) and not field_sym.can_evaluate():
             self.error(self.INVALID_REF, name=field)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From 7397ca161419780d1b0d99249f84b1e2a23db061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 45/54] fix: refuse named arguments in calls to variants and
 native functions

The native functions are recognised by their symbol, not only by name.
---
 amanda/compiler/check/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index b3729e4..79c84cd 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1236,13 +1236,15 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        if sym.is_builtin() and sym.name in BUILTINS:
+            self.refuse_named_args(node.fargs)
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
             node.eval_type = sym
         elif isinstance(sym, Variant):
             node.eval_type = sym.uniao
+            self.refuse_named_args(node.fargs)
             uniao.validate_variant_init(self, sym, node.fargs)
         else:
             self.validate_call(cast(symbols.FunctionSymbol, sym), node.fargs)
@@ -1353,16 +1355,20 @@ class Analyzer(ast.Visitor):
                 f"número incorrecto de argumentos para {callable_desc}. Esperava {arity} argumento(s), porém recebeu {arg_len}"
             )
 
-    def validate_call(self, sym: symbols.FunctionSymbol, fargs: List[ast.Expr]):
-        name = sym.name
-        if not sym.is_callable():
-            self.error(f"identificador '{name}' não é invocável")
+    def refuse_named_args(self, fargs: List[ast.Expr]):
         for arg in fargs:
             if arg.of_type(ast.NamedArg):
                 self.ctx_node = arg
                 self.error(
                     f"Funções e métodos não suportam argumentos nomeados"
                 )
+
+    def validate_call(self, sym: symbols.FunctionSymbol, fargs: List[ast.Expr]):
+        name = sym.name
+        if not sym.is_callable():
+            self.error(f"identificador '{name}' não é invocável")
+        self.refuse_named_args(fargs)
+        for arg in fargs:
             self.visit(arg)
         self.check_arity(
             len(fargs), name, sym.arity(), sym.is_property, symbol=sym
-- 
2.43.0


From a46cdaaa538b06b7f4a0ae5db422aa7c9a8f5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 46/54] fix: report calls to native functions with invalid
 arguments

Too few or too many arguments, and arguments of vec that are not simple
types, ended in a Python exception or in an abort of the VM.
---
 amanda/compiler/check/core.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 79c84cd..6eec207 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1270,9 +1270,10 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            if len(node.fargs) > 255:
+                self.error(
+                    f"Função 'vec' só pode ser invocada com até 255 argumentos"
+                )
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
@@ -1285,10 +1286,12 @@ class Analyzer(ast.Visitor):
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
 
-            type_node = cast(ast.Type, node.fargs[0])
+            type_node = node.fargs[0]
+            if not type_node.of_type(ast.Variable):
+                self.error("O argumento 1 da função 'vec' deve ser um tipo")
             el_type = self.get_type(type_node)  # Attempt to get type
-            # Is arg 1 a vector type?
-            if type(el_type) == Vector:
+            # Does arg 1 have a default value?
+            if not el_type.zero_initialized:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
@@ -1296,9 +1299,9 @@ class Analyzer(ast.Visitor):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1310,9 +1313,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
-- 
2.43.0


From 2b17336f7157391e9d7fc8d9cb0abd370e6c920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 47/54] fix: load every module on its own, before the ones that
 import it

A module imported with 'usa' saw the names of the module that imports it
and of the ones imported before. A module that had already been loaded in
another way was not made visible. Modules were initialized before the ones
they import. Errors about imported names were reported in the wrong file.
---
 amanda/compiler/check/core.py | 89 ++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 6eec207..7699456 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -72,7 +72,7 @@ class Analyzer(ast.Visitor):
             ), f"Invalid import path provided:  '{dir_path}'"
 
         # Load builtin module
-        self.load_module(builtin_module, ast.UsaMode.Global)
+        self.load_builtin_module()
         SrcBuiltins.init_embutidos(self.global_scope)
 
     # Helper methods
@@ -350,8 +350,23 @@ class Analyzer(ast.Visitor):
             ),
         )
 
+    def define_module_item(self, name: str, symbol: symbols.Symbol):
+        # The same item may be imported many times
+        if self.global_scope.get(name) is symbol:
+            return
+        self.assert_can_use_ident(self.ctx_node, name)
+        self.global_scope.define(name, symbol)
+
+    def define_module_symbols(self, imported_mod: Module):
+        mod_symtab: symbols.Scope = imported_mod.ast.symbols
+        for name, sym in mod_symtab.symbols.items():
+            # These are available in every module
+            if sym.module.fpath == builtin_module.fpath:
+                continue
+            self.define_module_item(name, sym)
+
     def define_module_items(
-        self, *, imported_mod: Module, prev_module: Module, usa_items: list[str]
+        self, *, imported_mod: Module, usa_items: list[str] | None
     ):
         if not usa_items:
             raise TypeError("Arg 'usa_items' should not be None")
@@ -359,13 +374,22 @@ class Analyzer(ast.Visitor):
         for item in usa_items:
             sym = mod_symtab.resolve(item)
             if not sym:
-                self.ctx_module = prev_module
                 self.error(
                     f"Erro ao importar módulo. O item '{item}' não foi declarado no módulo '{imported_mod.fpath}'"
                 )
-            self.ctx_module = prev_module
-            self.assert_can_use_ident(self.ctx_node, item)
-            self.global_scope.define(item, sym)
+            self.define_module_item(item, sym)
+
+    def load_builtin_module(self):
+        prev_module = self.ctx_module
+        self.ctx_module = builtin_module
+        self.imports[builtin_module.fpath] = builtin_module
+        self.visit_module(parse(builtin_module.fpath))
+        # What is declared afterwards in the scope belongs to other modules
+        scope = symbols.Scope()
+        scope.symbols.update(self.global_scope.symbols)
+        builtin_module.ast.symbols = scope
+        builtin_module.loaded = True
+        self.ctx_module = prev_module
 
     def load_module(
         self,
@@ -376,25 +400,6 @@ class Analyzer(ast.Visitor):
         usa_items: list[str] | None = None,
     ):
         existing_mod = self.imports.get(module.fpath)
-        # Module has already been loaded
-        if existing_mod and existing_mod.loaded:
-            match mode:
-                case ast.UsaMode.Scoped:
-                    self.define_module_alias(
-                        str(alias),
-                        importing_mod=self.ctx_module,
-                        imported_mod=existing_mod,
-                    )
-                case ast.UsaMode.Item:
-                    self.define_module_items(
-                        imported_mod=existing_mod,
-                        prev_module=self.ctx_module,
-                        usa_items=usa_items,
-                    )
-                case _:
-                    pass
-            return
-
         # Check for a cycle
         # A cycle occurs when a previously seen module
         # is seen again, but it is not loaded yet
@@ -403,34 +408,30 @@ class Analyzer(ast.Visitor):
                 f"Erro ao importar o módulo '{module.fpath}'. Inclusão cíclica detectada"
             )
 
-        prev_module = self.ctx_module
-        self.ctx_module = module
-        self.imports[module.fpath] = module
-        # TODO: Handle errors while loading another module
+        if existing_mod:
+            module = existing_mod
+        else:
+            self.imports[module.fpath] = module
+            self.load_module_scoped(module)
+            module.loaded = True
+            # Modules are initialized in the order of the imports, so the ones
+            # that were imported by this module come first
+            self.imports[module.fpath] = self.imports.pop(module.fpath)
+
         match mode:
             case ast.UsaMode.Global:
-                self.visit_module(parse(module.fpath))
+                self.define_module_symbols(module)
             case ast.UsaMode.Scoped:
-                if not alias:
-                    raise TypeError("Arg 'alias' should not be None")
-                imported_mod, _ = self.load_module_scoped(module)
                 self.define_module_alias(
-                    alias, importing_mod=prev_module, imported_mod=module
+                    str(alias),
+                    importing_mod=self.ctx_module,
+                    imported_mod=module,
                 )
-
             case ast.UsaMode.Item:
-                if not usa_items:
-                    raise TypeError("Arg 'usa_items' should not be None")
-                imported_mod, _ = self.load_module_scoped(module)
                 self.define_module_items(
-                    imported_mod=imported_mod,
-                    prev_module=prev_module,
-                    usa_items=usa_items,
+                    imported_mod=module, usa_items=usa_items
                 )
 
-        module.loaded = True
-        self.ctx_module = prev_module
-
     def resolve_import(self, fpath: str) -> str | None:
         # Try to resolve path using cwd
         if path.isfile(fpath):
-- 
2.43.0


From 464bc640611393f4650e97479912b1f5fb525600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 48/54] fix: keep the order of type parameters

They were kept in a set, so the arguments were bound in an order that
depended on the hash seed of the process.
---
 amanda/compiler/check/checker.py |  4 ++--
 amanda/compiler/check/core.py    | 22 ++++++++++------------
 amanda/compiler/types/core.py    | 10 +++++-----
 3 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index e1f543d..f4c0801 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -16,12 +16,12 @@ class Checker(Protocol):
     ctx_module: Module
     scope_depth: int
 
-    def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def get_generic_params(self, node: ASTNode) -> list[TypeVar]: ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
     def validate_int(self, token: Token): ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope: ...
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope: ...
     def define_symbol(
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7699456..34f6681 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -680,21 +680,19 @@ class Analyzer(ast.Visitor):
 
     def get_generic_params(
         self, node: ast.Registo | ast.MethodDecl
-    ) -> set[TypeVar]:
-        # TODO: Notify in case of duplicate generic param
+    ) -> list[TypeVar]:
         # TODO: Make sure to throw an error for unused generic params
-        return (
-            set(
-                map(
-                    lambda t: TypeVar(t.name.lexeme, self.ctx_module),
-                    node.generic_params,
+        params: list[TypeVar] = []
+        for param in node.generic_params or []:
+            ty_var = TypeVar(param.name.lexeme, self.ctx_module)
+            if ty_var in params:
+                self.error(
+                    f"o parâmetro de tipo '{ty_var}' já foi especificado"
                 )
-            )
-            if node.generic_params
-            else set()
-        )
+            params.append(ty_var)
+        return params
 
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope:
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope:
         ctx = symbols.Scope(self.ty_ctx)
         for param in params:
             ctx.define(param.name, param)
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 5f7e620..1adf81d 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -334,13 +334,13 @@ class Registo(Type):
         name: str,
         module: Module,
         fields: dict[str, VariableSymbol],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.fields = fields
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def is_callable(self) -> bool:
@@ -458,20 +458,20 @@ class Uniao(Type):
     name: str
     module: Module
     variants: dict[str, Variant]
-    ty_params: set[TypeVar]
+    ty_params: list[TypeVar]
 
     def __init__(
         self,
         name: str,
         module: Module,
         variants: dict[str, Variant],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.variants = variants
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def add_variant(self, name: str, params: list[Type]):
-- 
2.43.0


From 431b8e647b54503f2d56d7a061ab68938785eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 49/54] fix: replace type params by their arguments everywhere

Type params inside vectors, optionals and other generic types were not
replaced, type arguments that were type params were bound to themselves in
any order, 'T[A]?' dropped its arguments, and methods that name the type
params differently from the type ended in a Python exception.
---
 amanda/compiler/check/core.py   | 44 +++++++++++++++++++++------------
 amanda/compiler/symbols/base.py |  7 ++++++
 amanda/compiler/symbols/core.py | 43 ++++++++++++--------------------
 amanda/compiler/types/core.py   | 20 +++++++++++++++
 4 files changed, 71 insertions(+), 43 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 34f6681..0ea91c1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -14,6 +14,7 @@ from amanda.compiler.types.builtins import (
     builtin_module,
 )
 from amanda.compiler.types.core import (
+    ConstructedTy,
     ModuleTy,
     Primitive,
     Type,
@@ -182,10 +183,10 @@ class Analyzer(ast.Visitor):
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
-        type_symbol = self.ctx_scope.resolve(type_id)
-        # Attempt to get from ty_ctx
+        # Type params are closer than any other type
+        type_symbol = self.ty_ctx.resolve(type_id)
         if not type_symbol:
-            type_symbol = self.ty_ctx.resolve(type_id)
+            type_symbol = self.ctx_scope.resolve(type_id)
 
         if not type_symbol or not type_symbol.is_type():
             self.error(f"o tipo '{type_id}' não foi declarado")
@@ -211,7 +212,12 @@ class Analyzer(ast.Visitor):
 
     def construct_ty(self, type_node: ast.Type, type_symbol: Type) -> Type:
         if type_node.maybe_ty:
-            return SrcBuiltins.Opcao.bind(T=type_symbol)
+            return SrcBuiltins.Opcao.bind(
+                T=self.bind_generic_args(type_node, type_symbol)
+            )
+        return self.bind_generic_args(type_node, type_symbol)
+
+    def bind_generic_args(self, type_node: ast.Type, type_symbol: Type) -> Type:
         if type_node.generic_args and len(type_node.generic_args):
             generic_args = type_node.generic_args
             # Sort out generics
@@ -227,14 +233,13 @@ class Analyzer(ast.Visitor):
             generic_args = self.get_generic_args(
                 zip(reg.ty_params, generic_args)
             )
-            # If all type arguments are type vars, return the generic type.
-            if all(
-                map(
-                    lambda x: isinstance(x, TypeVar),
-                    generic_args.values(),
-                )
-            ):
+            # If the type arguments are the type params, return the generic type.
+            if list(generic_args.values()) == reg.ty_params:
                 return reg
+            if isinstance(type_symbol, Uniao):
+                self.error(
+                    f"A união '{type_symbol}' não pode receber argumentos de tipo genérico"
+                )
             return reg.bind(**generic_args)
         return cast(Type, type_symbol)
 
@@ -621,6 +626,16 @@ class Analyzer(ast.Visitor):
 
         # Checking target type
         target_ty = self.get_type(node.target_ty)
+        if isinstance(target_ty, ConstructedTy):
+            params = target_ty.generic_ty.ty_params
+            args = list(target_ty.bound_ty_args.values())
+            if all(
+                arg.is_type_var() and args.count(arg) == 1 for arg in args
+            ):
+                # The method has other names for the params of the type
+                for param, arg in zip(params, args):
+                    ty_ctx.define(arg.name, param)
+                target_ty = target_ty.generic_ty
         if isinstance(target_ty, (Vector, TypeVar)):
             self.error(f"Não pode declarar métodos para o tipo '{target_ty}'")
         method_name = node.name.lexeme
@@ -660,11 +675,8 @@ class Analyzer(ast.Visitor):
             self.scope_depth + 1,
             scope,
         )
-        for param in generic_params:
-            scope.define(
-                param.name,
-                param,
-            )
+        for name, param in ty_ctx.symbols.items():
+            scope.define(name, param)
         # TODO: Refactor method definitions to not rely on the underlying type
         node.symbol = symbol
         target_ty.define_method(symbol)
diff --git a/amanda/compiler/symbols/base.py b/amanda/compiler/symbols/base.py
index 73ba8cb..c41852b 100644
--- a/amanda/compiler/symbols/base.py
+++ b/amanda/compiler/symbols/base.py
@@ -146,6 +146,10 @@ class Type(Symbol):
     def full_field_path(self, field: str) -> str:
         return self.name + "::" + field
 
+    def substitute(self, ty_args: dict[str, Type]) -> Type:
+        # The type that has the type params replaced by the arguments
+        return self
+
     def check_cast(self, other: Type) -> bool:
         return self.cast_to(other) or other.cast_from(self)
 
@@ -233,6 +237,9 @@ class TypeVar(Type):
     def is_type_var(self) -> bool:
         return True
 
+    def substitute(self, ty_args: dict[str, Type]) -> Type:
+        return ty_args.get(self.name, self)
+
 
 class Typed(Symbol):
     def __init__(self, name: str, ty: Type, module: Module):
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 3c1b370..6a557b5 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -20,9 +20,9 @@ class VariableSymbol(Typed):
         return False
 
     def bind(self, **ty_args: Type) -> Typed:
-        if not self.type.is_type_var():
-            return self
-        return VariableSymbol(self.name, ty_args[self.type.name], self.module)
+        return VariableSymbol(
+            self.name, self.type.substitute(ty_args), self.module
+        )
 
 
 class FunctionSymbol(Typed):
@@ -39,7 +39,6 @@ class FunctionSymbol(Typed):
         self.params = params  # dict of symbols
         self.scope = None
         self.entrypoint = entrypoint
-        self._has_generic_params_cached: bool | None = None
 
     def __str__(self):
         params = ",".join(self.params)
@@ -54,30 +53,16 @@ class FunctionSymbol(Typed):
     def arity(self):
         return len(self.params)
 
-    def has_generic_params(self):
-        if self._has_generic_params_cached is not None:
-            return self._has_generic_params_cached
-        self._has_generic_params_cached = any(
-            map(lambda p: p.type.is_type_var(), self.params.values())
-        )
-        return self._has_generic_params_cached
-
     def bind(self, **ty_args: Type) -> Typed:
-        if not self.has_generic_params() and not self.type.is_type_var():
-            return self
-
-        params = self.params
-        if self.has_generic_params:
-            params = {
-                param: cast(VariableSymbol, value.bind(**ty_args))
-                for param, value in self.params.items()
-            }
-        return_ty = self.type
-        if self.type.is_type_var():
-            return_ty = ty_args[self.type.name]
-
+        params = {
+            param: cast(VariableSymbol, value.bind(**ty_args))
+            for param, value in self.params.items()
+        }
         return FunctionSymbol(
-            self.name, return_ty, module=self.module, params=params
+            self.name,
+            self.type.substitute(ty_args),
+            module=self.module,
+            params=params,
         )
 
 
@@ -109,13 +94,17 @@ class MethodSym(FunctionSymbol):
 
     def bind(self, **ty_args: Type) -> Typed:
         new_fn = cast(FunctionSymbol, super().bind(**ty_args))
-        return MethodSym(
+        method = MethodSym(
             self.method_name,
             target_ty=self.target_ty,
             return_ty=new_fn.type,
             module=self.module,
             params=new_fn.params,
         )
+        method.out_id = self.out_id
+        method.is_global = self.is_global
+        method.set_annotations(self.annotations)
+        return method
 
 
 class Scope:
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 1adf81d..7213df1 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -269,6 +269,9 @@ class Vector(Type):
         super().__init__(str(Types.TVEC), module)
         self.element_type: Type = element_type
 
+    def substitute(self, ty_args: dict[str, Type]) -> Type:
+        return Vector(self.module, self.element_type.substitute(ty_args))
+
     def get_type(self) -> Type:
         if self.element_type.kind != Types.TVEC:
             return self.element_type
@@ -394,6 +397,14 @@ class Registo(Type):
             else None
         )
 
+    def substitute(self, ty_args: dict[str, Type]) -> Type:
+        # Without arguments, the type params stand for themselves
+        if not self.ty_params or not self._ty_names.issubset(ty_args):
+            return self
+        return self.bind(
+            **{param.name: ty_args[param.name] for param in self.ty_params}
+        )
+
     def bind(self, **ty_args: Type) -> ConstructedTy:
         if self.ty_params is None:
             raise NotImplementedError(
@@ -646,6 +657,15 @@ class ConstructedTy(Type):
     def is_generic(self) -> bool:
         return False
 
+    def substitute(self, ty_args: dict[str, Type]) -> Type:
+        return ConstructedTy(
+            self.generic_ty,
+            {
+                name: ty.substitute(ty_args)
+                for name, ty in self.bound_ty_args.items()
+            },
+        )
+
     def get_property(self, prop) -> Symbol | None:
         prop = self.generic_ty.get_property(prop)
         if (
-- 
2.43.0


From a67321ad4b7912a350814d4c0e4943ffdea9ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 50/54] fix: read the field that is assigned to another field

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 2c063f7..8632236 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -999,7 +999,7 @@ class ByteGen:
         self.gen(node.target)
         self.load_name(node.member.lexeme)
         assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
+        if node.child_of(ast.Set) and node.parent.target is node:
             return
         self.append_op(OpCode.GET_PROP)
 
-- 
2.43.0


From b9487e50d223f8c4282c772606dd0acff5ef5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 51/54] fix: store the target of iguala when it belongs to
 another module

---
 amanda/compiler/codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 8632236..465853e 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -787,7 +787,8 @@ class ByteGen:
         self.ctx_loop_exit = loop_exit_state
 
     def gen_iguala(self, node: ast.Iguala):
-        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
+        target_var = getattr(node.target, "var_symbol", None)
+        if target_var is not node.target_binding:
             # The value is tested many times, but computed only once
             self.gen(node.target)
             self.set_variable(unwrap(node.target_binding))
-- 
2.43.0


From c0779ef8d22a432173d176ec31c36e3bd796a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 52/54] fix: import a module whose file is called ama.ama

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0ea91c1..85931c2 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -456,7 +456,7 @@ class Analyzer(ast.Visitor):
         if not tail:
             self.error(err_msg)
         # If file doesn't have .ama extensions, add it
-        if tail.split(".")[-1] != "ama":
+        if not tail.endswith(".ama"):
             tail = tail + ".ama"
         fpath = path.join(head, tail)
 
-- 
2.43.0


From bc89e9bce3cfa0dcafba8a7f53e037d17e2ab4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 53/54] fix: report errors whose text has braces, as in the
 path of a module

---
 amanda/compiler/check/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 85931c2..0f8f812 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -149,13 +149,15 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Only templates have fields; other messages may contain any text
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Only templates have fields; other messages may contain any text
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
-- 
2.43.0


From 77e8cdf1f6040c98b3abce04dd2397674883ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 54/54] fix: keep the quotes inside the path of a module

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0f8f812..e6f894e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -451,7 +451,8 @@ class Analyzer(ast.Visitor):
         return None
 
     def visit_usa(self, node: ast.Usa):
-        fpath = node.module.lexeme.replace("'", "").replace('"', "")
+        # Only the quotes that delimit the path aren't part of it
+        fpath = node.module.lexeme[1:-1]
         # Check if path refers to a valid file
         head, tail = path.split(fpath)
         err_msg = f"Erro ao importar módulo. O caminho '{fpath}' não é um ficheiro válido"
-- 
2.43.0

