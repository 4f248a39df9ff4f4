From bb17b649fc30c47ed0b791aa606d39039708c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 01/33] fix: evaluate constants that are falsy or stand alone
 (0, 0.0, "", FALSE, UNDEF)

A constant whose value is falsy was taken for a node not evaluated yet and ended in
InterpreterError 'invalid node type'; the same happened to a policy that is a single constant.
---
 hgpl/interpreting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..d518cc0 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,6 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, ASTResult, \
+    ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -249,7 +250,7 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if n.result is not None and isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
@@ -257,7 +258,7 @@ class Interpreter(object):
 
     def _evaluate_node(self, node):
         for n in node.children():
-            if not n.result:
+            if n.result is None:
                 self._evaluate_node(n)
 
         if isinstance(node, AttNode):
@@ -270,7 +271,7 @@ class Interpreter(object):
             self._evaluate_bool_op_node(node)
         elif isinstance(node, OpNode):
             self._evaluate_op_node(node)
-        else:
+        elif not isinstance(node, (ValNode, BoolValNode)):
             self._error("Interpreter Error, invalid node type.", "evaluate_node", node)
 
     def get_warnings(self):
-- 
2.43.0


From b73cfe4d3e1e0c1be89fb8e0293d504b38af1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 02/33] fix: do not reuse results and warnings of an earlier
 evaluation

Nodes kept the result of the previous evaluation, so evaluating a policy again with other
attribute values gave the old decision, and old warnings were reported again.
---
 hgpl/interpreting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index d518cc0..3c2d022 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -258,8 +258,7 @@ class Interpreter(object):
 
     def _evaluate_node(self, node):
         for n in node.children():
-            if n.result is None:
-                self._evaluate_node(n)
+            self._evaluate_node(n)
 
         if isinstance(node, AttNode):
             self._evaluate_att_node(node)
@@ -283,6 +282,7 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-- 
2.43.0


From 20bcbcc958a5c1fedf5d731343f96c772aa0eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 03/33] fix: evaluate() without a warning level must not fail
 when there are warnings

The default level None was compared with an ErrorType (TypeError).
---
 hgpl/interpreting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 3c2d022..a250957 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -285,8 +285,9 @@ class Interpreter(object):
         self._warnings = []
         self._evaluate_node(self._ast)
 
-        for warn in self._warnings:
-            if warn.type >= min_warn_level:
-                raise warn
+        if min_warn_level is not None:
+            for warn in self._warnings:
+                if warn.type >= min_warn_level:
+                    raise warn
 
         return self._ast.result
-- 
2.43.0


From dac03f7a5df9b01ef4995e9ab285d1adbb3e8519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 04/33] fix: a non-boolean attribute as whole policy is an
 error, not a (truthy) Symbol

evaluate() returned the Symbol object itself, which any caller testing the result takes for true.
---
 hgpl/interpreting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index a250957..45e6fb8 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -285,6 +285,9 @@ class Interpreter(object):
         self._warnings = []
         self._evaluate_node(self._ast)
 
+        if not isinstance(self._ast.result, ASTResult):
+            self._error("Interpreter Error, policy does not evaluate to a boolean.", "evaluate", self._ast)
+
         if min_warn_level is not None:
             for warn in self._warnings:
                 if warn.type >= min_warn_level:
-- 
2.43.0


From db223ad4b0451deaa380c062d08fc229dd6b1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 05/33] fix: compare set attributes with set constants in = and
 !=

The attribute's value is a set and the constant's a list, so the comparison was always UNDEF.
---
 hgpl/interpreting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 45e6fb8..398abe5 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -108,6 +108,11 @@ class Interpreter(object):
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
 
+        if isinstance(lresult, set) and isinstance(rresult, list):
+            rresult = set(rresult)
+        elif isinstance(lresult, list) and isinstance(rresult, set):
+            lresult = set(lresult)
+
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
-- 
2.43.0


From 88c8acb89da801e64d864d6a8655e8f66617a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 06/33] fix: make the NULL value hashable

ASTNullVal defines __eq__ only, so sets with NULL failed with TypeError in SUBSET, = and !=.
---
 hgpl/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..857582d 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return hash(ASTNullVal)
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
-- 
2.43.0


From 40d7fb421523e3b193b9bd6f425c80c2ffcb18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 07/33] fix: report a policy ending in an attribute prefix and
 '.' as LexerError

'user.' at the end of the text failed with AttributeError (None has no isalpha).
---
 hgpl/lexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 957997a..26ead7c 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -229,7 +229,8 @@ class Lexer(object):
             if self._peek() == ".":
                 self._advance()
                 self._advance()
-                if self._current_char.isalpha() or self._current_char.isdigit() or self._current_char == "_":
+                if self._current_char and (self._current_char.isalpha() or self._current_char.isdigit() or
+                                           self._current_char == "_"):
                     ident = self._id()
                     if prefix.lower() == "user":
                         token_type = TokenType.USR_ATT
-- 
2.43.0


From f5bb4affd93d8c9ff7a36180448daeed4dc373ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 08/33] fix: only decimal digits start or continue a number

Characters such as superscript two are digits but no decimals, and int() failed on them with
ValueError instead of the lexer reporting an unexpected character.
---
 hgpl/lexing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 26ead7c..3c01fe8 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -106,13 +106,13 @@ class Lexer(object):
         ttype = TokenType.INT
         numstring = self._current_char
         pos_at_start = self._text_pos
-        while self._peek() and (self._peek().isdigit() or self._peek() == "."):
-            if self._peek().isdigit():
+        while self._peek() and (self._peek().isdecimal() or self._peek() == "."):
+            if self._peek().isdecimal():
                 self._advance()
                 numstring += self._current_char
             elif self._peek() == "." and ttype == TokenType.INT:
                 self._advance()
-                if self._peek() and self._peek().isdigit():
+                if self._peek() and self._peek().isdecimal():
                     ttype = TokenType.FLOAT
                     numstring += self._current_char
                 else:
@@ -221,7 +221,8 @@ class Lexer(object):
                                  self._text_pos + 1, Token(TokenType.OP, self._text_pos, "!="))
         elif self._current_char == "\"":
             next_token = self._string()
-        elif self._current_char.isdigit() or (self._current_char == "-" and self._peek() and self._peek().isdigit()):
+        elif self._current_char.isdecimal() or (self._current_char == "-" and self._peek() and
+                                                 self._peek().isdecimal()):
             next_token = self._number()
         elif self._current_char.isalpha():
             pos_at_start = self._text_pos
-- 
2.43.0


From 6b9198a3f8a53040f90ba6a85210799e5be0d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 09/33] fix: peeking past the last token gives None

The bound was off by one, so an empty policy or one ending in AND/OR failed with IndexError
instead of ParserError.
---
 hgpl/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index 9ee53e1..a34ce3e 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -24,7 +24,7 @@ class Parser(object):
         return self._policy
 
     def _peek(self, i=1):
-        if self._pos + i > len(self._token_list):
+        if self._pos + i >= len(self._token_list):
             return None
         return self._token_list[self._pos + i]
 
-- 
2.43.0


From 8978b83b7309d852075a664eb5551e493c4282b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 10/33] fix: store the encoded size of token values in encoded
 policy trees

The size was counted in characters, so names with non-ASCII letters were cut off.
---
 hgpl/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 857582d..06508c9 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -352,9 +352,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
-- 
2.43.0


From 32b97c3eed5e518162f7271ecd92bfe270c07c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 11/33] fix: keep the precision of float constants in encoded
 policy trees

They were stored in 32 bits, so 0.1 came back as 0.10000000149011612. Trees stored with 32 bit
floats still decode.
---
 hgpl/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 06508c9..d067607 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -339,8 +339,8 @@ class ASTEncoder(object):
             tval_size = 4
             tval = node.tvalue()
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -425,7 +425,7 @@ class ASTEncoder(object):
                 if token_type == TokenType.INT.value:
                     tval_format = 'i'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'd' if token_val_size == 8 else 'f'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
-- 
2.43.0


From c6ad5bb77b7e87dafcd6fdc841dcbf1424e769c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 12/33] fix: decode the empty string constant as empty string

It came back as None, so the decoded policy no longer evaluated.
---
 hgpl/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index d067607..15772d6 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -438,6 +438,8 @@ class ASTEncoder(object):
                     token_val = token_val.decode('utf-8')
 
                 byte_count += token_val_size
+            elif token_type == TokenType.STRING.value:
+                token_val = ''
             else:
                 token_val = None
 
-- 
2.43.0


From e0d6db399024e321efe9a5d68f8b608637f5e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 13/33] fix: number the nodes of a policy tree within the tree
 when encoding it

Node ids are stored in 16 bits but were counted over the life of the process, so encoding failed
for good once 65536 nodes had been created.
---
 hgpl/ast.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 15772d6..5d1f219 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -390,8 +390,17 @@ class ASTEncoder(object):
 
         return encoded_nodes
 
+    @staticmethod
+    def _number_nodes(node, next_id=0):
+        node.id = next_id
+        next_id += 1
+        for n in node.children():
+            next_id = ASTEncoder._number_nodes(n, next_id)
+        return next_id
+
     @staticmethod
     def encode(ast, encode_in_base64=False):
+        ASTEncoder._number_nodes(ast)
         encoded_nodes = ASTEncoder._encode_node(ast)
         header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ast.id)
         encoded = header + b''.join(encoded_nodes)
-- 
2.43.0


From c7a042e284c52a0feebde2c9035c71d739deac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 14/33] fix: infer the type of an attribute compared with an
 attribute of known type

The conditions tested one symbol against itself and were never true, so such comparisons gave a
spurious warning and nothing was inferred.
---
 hgpl/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index e08d906..88dd380 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -53,10 +53,10 @@ class TypeChecker(object):
             right_symbol = self._symbols.lookup(right_name)
 
             if left_symbol and right_symbol:
-                if left_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
+                if left_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(left_symbol.name, right_symbol.type)
                     left_symbol.type = right_symbol.type
-                elif right_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
+                elif right_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(right_symbol.name, left_symbol.type)
                     right_symbol.type = left_symbol.type
                 elif left_symbol.type != right_symbol.type \
-- 
2.43.0


From 57d6e1bf9e0fed4cd2e152bc2ca8a93e77d83c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 15/33] fix: store the encoded size of texts in attribute
 certificates

Sizes were counted in characters while the texts are stored as UTF-8, so any non-ASCII name, value,
URL or identifier was silently cut off.
---
 hgaa/attcert.py | 60 ++++++++++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..b0c4c50 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -99,27 +99,19 @@ class ACIssuer(ACPart):
         return output
 
     def encode(self):
-        pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
-
-        if self.name is not None:
-            name_size = len(self.name)
-        else:
-            name_size = 0
-
-        if self.url is not None:
-            url_size = len(self.url)
-        else:
-            url_size = 0
-
-        header = struct.pack('<HHHHH', pub_key_size, key_algo_size, uid_size, name_size, url_size)
-
         key_algo = self.key_algo.encode('utf-8')
         uid = self.uid.encode('utf-8')
         name = b'' if self.name is None else self.name.encode('utf-8')
         url = b'' if self.url is None else self.url.encode('utf-8')
 
+        pub_key_size = len(self.pub_key)
+        key_algo_size = len(key_algo)
+        uid_size = len(uid)
+        name_size = len(name)
+        url_size = len(url)
+
+        header = struct.pack('<HHHHH', pub_key_size, key_algo_size, uid_size, name_size, url_size)
+
         strings = struct.pack('<' + str(key_algo_size) + 's' + str(uid_size) + 's' + str(name_size) + 's' +
                               str(url_size) + 's', key_algo, uid, name, url)
 
@@ -165,21 +157,17 @@ class ACHolder(ACPart):
         return output
 
     def encode(self):
-        pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
-
-        if self.name is not None:
-            name_size = len(self.name)
-        else:
-            name_size = 0
-
-        header = struct.pack('<HHHH', pub_key_size, key_algo_size, uid_size, name_size)
-
         key_algo = self.key_algo.encode('utf-8')
         uid = self.uid.encode('utf-8')
         name = b'' if self.name is None else self.name.encode('utf-8')
 
+        pub_key_size = len(self.pub_key)
+        key_algo_size = len(key_algo)
+        uid_size = len(uid)
+        name_size = len(name)
+
+        header = struct.pack('<HHHH', pub_key_size, key_algo_size, uid_size, name_size)
+
         strings = struct.pack('<' + str(key_algo_size) + 's' + str(uid_size) + 's' + str(name_size) + 's', key_algo,
                               uid, name)
 
@@ -232,13 +220,13 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
         att_name = self.att_name.encode('utf-8') if self.att_name is not None else b''
+        att_id_size = len(att_id)
+        att_value_size = len(att_value)
+        att_name_size = len(att_name)
         headandbody = struct.pack('<HHHHB%ss%ss%ss' % (att_id_size, att_value_size, att_name_size), att_id_size,
                                   att_value_size, att_name_size, extra_byte_size, self.att_type.value, att_id,
                                   att_value, att_name)
@@ -307,9 +295,9 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
+        url_size = len(url)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
 
         headandbody = struct.pack('<HHII%ss' % url_size, url_size, extra_byte_size, self.valid_after,
                                   self.valid_before, url)
@@ -386,9 +374,9 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
+        eid_size = len(eid)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
 
         headerandbody = struct.pack('<HH%ss' % eid_size, eid_size, extra_byte_size, eid)
 
@@ -430,9 +418,9 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
-        value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
+        algo_size = len(algo)
+        value_size = len(self.sig_value)
 
         headandalgo = struct.pack('<HH%ss' % algo_size, algo_size, value_size, algo)
         encoded = b''.join((headandalgo, self.sig_value))
-- 
2.43.0


From fb654b0a5e55fb517841099002f75586103971b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 16/33] fix: refuse a certificate that ends within its
 signature

Decoding returned a certificate with a shortened signature (or algorithm name).
---
 hgaa/attcert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index b0c4c50..6de9ae1 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -430,6 +430,9 @@ class ACSignature(ACPart):
     def decode(byte_array):
         sig = ACSignature.__new__(ACSignature)
         algo_size, value_size = struct.unpack('<HH', byte_array[:4])
+        if len(byte_array) < 4 + algo_size + value_size:
+            # TODO: Custom exception.
+            raise Exception('Signature is truncated.')
         sig.sig_algo = byte_array[4:4 + algo_size].decode('utf-8') if algo_size > 0 else None
         sig.sig_value = byte_array[4 + algo_size:4 + algo_size + value_size] if value_size > 0 else None
 
-- 
2.43.0


From cba377b2e923030bc769afdb8b86075aec9a535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 17/33] fix: certificate comparison with absent or repeated
 attributes and extensions

Comparing a certificate without attribute or extension list with one that has an (empty) list raised
TypeError, and with repeated attributes the result depended on which side was which.
---
 hgaa/attcert.py | 51 ++++++++++++++-----------------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6de9ae1..f649e80 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -660,6 +660,18 @@ class AttributeCertificate(object):
 
         return ac
 
+    @staticmethod
+    def _same_parts(parts, other_parts):
+        parts = list(parts) if parts is not None else []
+        other_parts = list(other_parts) if other_parts is not None else []
+        if len(parts) != len(other_parts):
+            return False
+        for part in parts:
+            if part not in other_parts:
+                return False
+            other_parts.remove(part)
+        return True
+
     def __eq__(self, other):
         # TODO: There is probably a much better way to code this function.
         if isinstance(other, AttributeCertificate) and self.issuer == other.issuer and self.holder == other.holder and \
@@ -680,42 +692,7 @@ class AttributeCertificate(object):
                 else:
                     return False
 
-            # TODO: Refactor this (poorly coded)
-            if self.att_set is None and other.att_set is None:
-                pass
-            elif len(self.att_set) == len(other.att_set):
-                for self_att in self.att_set:
-                    ok = False
-                    for other_att in other.att_set:
-                        if self_att.att_id == other_att.att_id:
-                            if self_att == other_att:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            # TODO: Refactor this (poorly coded)
-            if self.extensions is None and other.extensions is None:
-                pass
-            elif len(self.extensions) == len(other.extensions):
-                for self_ext in self.extensions:
-                    ok = False
-                    for other_ext in other.extensions:
-                        if self_ext.eid == other_ext.eid:
-                            if self_ext == other_ext:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            return True
+            return AttributeCertificate._same_parts(self.att_set, other.att_set) and \
+                AttributeCertificate._same_parts(self.extensions, other.extensions)
         else:
             return False
-- 
2.43.0


From 8eba05b6913c5a10e49b44ca3ff97931b7222447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 18/33] fix: certificates whose issuer or holder names differ
 are not equal

---
 hgaa/attcert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index f649e80..d167bf3 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -137,7 +137,7 @@ class ACIssuer(ACPart):
 
     def __eq__(self, other):
         return isinstance(other, ACPart) and self.pub_key == other.pub_key and self.key_algo == other.key_algo and \
-               self.uid == other.uid and self.url == other.url
+               self.uid == other.uid and self.name == other.name and self.url == other.url
 
 
 class ACHolder(ACPart):
@@ -192,7 +192,7 @@ class ACHolder(ACPart):
 
     def __eq__(self, other):
         return isinstance(other, ACPart) and self.pub_key == other.pub_key and self.key_algo == other.key_algo and \
-               self.uid == other.uid
+               self.uid == other.uid and self.name == other.name
 
 
 class ACAttribute(ACPart):
-- 
2.43.0


From 9e2cb38b49bbbd89be11260c86f7bce8a80b4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 19/33] fix: import BASE64FULL certificates given as bytes

The policy authority hands over the bytes it received, which failed with TypeError, so it refused
every certificate in this format.
---
 hgaa/attcert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index d167bf3..7a6c193 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -530,6 +530,8 @@ class AttributeCertificate(object):
             # TODO: Support TEXT format import.
             raise Exception('TEXT import not yet supported.')
         elif format == ExportFormat.BASE64FULL:
+            if not isinstance(input, str):
+                input = bytes(input).decode('utf-8')
             parts = input.split('\n')
             # TODO: Check that all parts are valid/right version.
             return AttributeCertificate.import_ac(parts[3], ExportFormat.BASE64, verify)
-- 
2.43.0


From 8e02fde3e5e14a114d45ec52512ec0eedbd4d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 20/33] fix: accept only certificates signed with the key
 registered for their issuer

The signature was checked against the key in the certificate itself and the issuer was trusted by its
uid alone, so anyone could sign certificates in the name of a trusted attribute authority.
---
 hgaa/services/pauth.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..69e577b 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -169,6 +170,13 @@ class PolicyAuthority(object):
 
         return pa_info
 
+    @staticmethod
+    def _same_key(registered_key, presented_key):
+        try:
+            return RSA.import_key(registered_key).publickey() == RSA.import_key(presented_key).publickey()
+        except (ValueError, IndexError, TypeError):
+            return False
+
     def _check_cert(self, raw_cert, aauth_dict, exports, request):
         # TODO: Use request to switch between client and server fault, also customize error and log messages.
         if raw_cert.version != PolicyAuthority.AC_VERSION:
@@ -192,7 +200,8 @@ class PolicyAuthority(object):
 
             aauth_uid = cert.issuer.uid
             aauth = aauth_dict.get(aauth_uid, None)
-            if aauth is None or aauth.trust_level <= 0:
+            if aauth is None or aauth.trust_level <= 0 or \
+               not PolicyAuthority._same_key(aauth.pub_key, cert.issuer.pub_key):
                 PolicyAuthority.LOG.error(
                     'ClientFault: aauth in ac is not trusted in request from %s'
                     % exports['REMOTE_ADDR'])
-- 
2.43.0


From 3a21905c0c5e5cd5cbde4015e9fa5abcc5198808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 21/33] fix: hash the presented certificate, not the consumed
 buffer

Importing a certificate empties the buffer it is read from, so every stored hash was the hash of
nothing and a serial could be reused for different content.
---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 69e577b..a9281c0 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -267,7 +267,7 @@ class PolicyAuthority(object):
 
                 processed_att_certs[b64_serial] = cert
 
-                cert_hash=base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
+                cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
-- 
2.43.0


From c37e5c96276ab2b0c2787046439bbf261bd3acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 22/33] fix: report an unknown certificate format as client
 fault

It escaped as ValueError.
---
 hgaa/services/pauth.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index a9281c0..c1495b3 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -252,7 +252,13 @@ class PolicyAuthority(object):
         for raw_cert in att_cert_set.attribute_certificates:
             raw_bytes = raw_cert.data.read()
             raw_cert.data_raw = bytearray(raw_bytes)
-            raw_cert.format = ExportFormat(raw_cert.format)
+            try:
+                raw_cert.format = ExportFormat(raw_cert.format)
+            except ValueError:
+                PolicyAuthority.LOG.error(
+                    'ClientFault: Unknown ac format in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('Unsupported attribute certificate format in certificate set.')
 
             cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
             if cert is not None:
-- 
2.43.0


From 7482d1980629151c90883f6815e9d1bd01f51a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 23/33] fix: a certificate presented twice in one request is
 stored once

The second copy violated the primary key and the request failed with a database error; two different
certificates with the same serial did so too instead of being refused.
---
 hgaa/services/pauth.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index c1495b3..4e0dabb 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -271,10 +271,17 @@ class PolicyAuthority(object):
                 b64_serial = self._int_to_b64(cert.info.serial, ACInformation.SERIAL_SIZE)
 
 
-                processed_att_certs[b64_serial] = cert
-
                 cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
+                if b64_serial in processed_att_certs:
+                    if processed_att_certs[b64_serial] != cert_hash:
+                        PolicyAuthority.LOG.error(
+                            'ClientFault: Cert with serial %s used more than once in request from %s'
+                            % (b64_serial, exports['REMOTE_ADDR']))
+                        raise ClientFault('Certificate serial already in use.')
+                    continue
+
+                processed_att_certs[b64_serial] = cert_hash
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
 
-- 
2.43.0


From b10f769842fe798e0898c4c797b08320ecfd203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 24/33] fix: an attribute assigned without a value has no value
 in the certificate

It was issued with the text 'None' as its value.
---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..4f95a25 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -380,7 +380,7 @@ class AttributeAuthority(object):
                         att_id=att.id,
                         att_type=att.type,
                         att_name=att.name,
-                        att_value=str(att.value)
+                        att_value=str(att.value) if att.value is not None else None
                     )
                 )
 
-- 
2.43.0


From 3aee8515cfbc74649a23445151756fa099be5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 25/33] fix: the weekday name and the weekday are different
 connection attributes

Both were issued under the id and name of the weekday.
---
 hgaa/services/aauth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 4f95a25..8139dc6 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,8 +260,8 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
                                            'value': time.strftime('%A')}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
-- 
2.43.0


From 51309e1426438d3feb397df31b78a04ba6d8a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 26/33] fix: name weekday and month of the connection in GMT
 like the other fields

They were taken from the local time of a second clock reading.
---
 hgaa/services/aauth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 8139dc6..69ed051 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -263,11 +263,11 @@ class AttributeAuthority(object):
         con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
                                            'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From c2ab6e54593f5a07d875c3cd4d3a63c4d5b7498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 27/33] fix: accept compressed and IPv4-mapped IPv6 client
 addresses

Addresses such as ::1 or ::ffff:10.0.0.1 failed with ValueError, and groups of compressed addresses
would have been numbered wrongly.
---
 hgaa/services/aauth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 69ed051..eb2f41e 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -10,6 +10,7 @@ import base64
 from logging import DEBUG
 import time
 import os
+import ipaddress
 
 from hgaa.log import SERVICE_LOG, make_logger
 from hgaa.config import get_conf
@@ -198,7 +199,7 @@ class AttributeAuthority(object):
 
         if 'REMOTE_ADDR' in exports:
             i = 0
-            if '.' in exports['REMOTE_ADDR']:
+            if '.' in exports['REMOTE_ADDR'] and ':' not in exports['REMOTE_ADDR']:
                 con_att_set['ip_v4'] = {'name': 'ip_v4',
                                         'id': '/attribute/connection/ip_v4',
                                         'type': AttributeType.BOOL,
@@ -225,7 +226,7 @@ class AttributeAuthority(object):
                                         'type': AttributeType.BOOL,
                                         'value': True}
 
-                hextets = exports['REMOTE_ADDR'].split(':')
+                hextets = ipaddress.IPv6Address(exports['REMOTE_ADDR'].split('%')[0]).exploded.split(':')
                 for hex in hextets:
                     con_att_set['remote_addr_v6_hex%d' % i] = {'name': 'remote_addr_v6_hex%d' % i,
                                                           'id': '/attribute/connection/remote_addr_v6_hex%d' % i,
-- 
2.43.0


From 39a404d72a2261ffba9ee1c5636f83a75397d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:16 +0000
Subject: [PATCH 28/33] fix: default validity of revocation rules is exactly
 one day even when the clock ticks in between

---
 hgaa/attcert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 7a6c193..a2b88ca 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -272,13 +272,14 @@ class ACRevocationRules(ACPart):
         self.url = url
         self.extra_bytes = extra_bytes
 
+        now = int(time.time())
         if valid_after is None:
-            self.valid_after = int(time.time())
+            self.valid_after = now
         else:
             self.valid_after = valid_after
 
         if valid_before is None:
-            self.valid_before = int(time.time()) + ACRevocationRules.DEFAULT_LENGTH
+            self.valid_before = now + ACRevocationRules.DEFAULT_LENGTH
         else:
             self.valid_before = valid_before
 
-- 
2.43.0


From 43780af1c850b7aaa18acbdb7d1c9669ae1fa7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:15 +0000
Subject: [PATCH 29/33] fix: attribute request without username or password is
 a client fault

---
 hgaa/services/aauth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index eb2f41e..9b20cc2 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -432,6 +432,11 @@ class AttributeAuthority(object):
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
         if credentials.type == CredentialType.USER_PASS.value:
+            if credentials.username is None or credentials.password is None:
+                AttributeAuthority.LOG.info('ClientFault: Missing username or password in attribute_request from %s' %
+                                            exports['REMOTE_ADDR'])
+                raise ClientFault('Invalid credentials.')
+
             s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
-- 
2.43.0


From 8fab0d357547246135d9b8400a2c7e0c360297d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:15 +0000
Subject: [PATCH 30/33] fix: attribute request with a password beyond bcrypt's
 limit is a client fault

---
 hgaa/services/aauth.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 9b20cc2..c60ba06 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -85,6 +85,7 @@ class AttributeAuthority(object):
     KEY_CIPHER = 'RSA'  # Only RSA supported right now.
     SIG_ALGO = 'RSASSA-PKCS1-v1_5'  # Only RSASSA-PKCS1-v1_5 supported right now.
     HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
+    MAX_PASS_BYTES = 72  # bcrypt refuses longer passwords (including the pepper).
     LOG = make_logger('AAUTH', True, SERVICE_LOG)
     AC_DIR = os.path.dirname(os.path.abspath(__file__)) + '/attribute_certificates/'
 
@@ -445,12 +446,17 @@ class AttributeAuthority(object):
                                                                                                exports['REMOTE_ADDR']))
                 raise ClientFault('Invalid credentials.')
 
+            password = ('%s%s' % (credentials.password, self.pass_pepper)).encode()
+            if len(password) > AttributeAuthority.MAX_PASS_BYTES:
+                AttributeAuthority.LOG.info('ClientFault: Too long password for user %s in attribute_request from %s' %
+                                            (credentials.username, exports['REMOTE_ADDR']))
+                raise ClientFault('Invalid credentials.')
+
             if AttributeAuthority.LOG.isEnabledFor(DEBUG):
                 AttributeAuthority.LOG.debug('Hash for request is: %s' %
-                                             bcrypt.hashpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
-                                                           user.password.encode()))
+                                             bcrypt.hashpw(password, user.password.encode()))
 
-            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
+            if bcrypt.checkpw(password, user.password.encode()):
                 AttributeAuthority.LOG.info('Successful login by %s from %s.' % (credentials.username,
                                                                                  exports['REMOTE_ADDR']))
                 t1 = time.time()
-- 
2.43.0


From 820a6522b42e26c53b528da0975ca7ace89fe54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:53 +0000
Subject: [PATCH 31/33] fix: database user names and passwords reach MySQL as
 configured

The connection string was assembled by formatting, so a password with '@', '/' or '%' in it
changed the meaning of the string, and an unset user or password became the text 'None'.
---
 hgaa/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 4e10770..c84e542 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -1,4 +1,5 @@
 from sqlalchemy import create_engine
+from sqlalchemy.engine import URL
 from sqlalchemy.orm import sessionmaker
 
 from hgaa.config import get_conf
@@ -67,9 +68,8 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
         log.info('Creating %s database engine for %s', dbtype, hgaa_name)
 
         if dbtype.upper() == 'MYSQL':
-            connect = 'mysql+mysqlconnector://{user}:{password}@{host}:{port}/{dbname}'.format(user=dbuser, password=dbpass,
-                                                                                     host=dbhost, dbname=dbname,
-                                                                                     port=dbport)
+            connect = URL.create('mysql+mysqlconnector', username=dbuser, password=dbpass, host=dbhost,
+                                 port=int(dbport), database=dbname)
         elif dbtype.upper() == 'SQLITE':
             connect = 'sqlite:///{dbname}.db'.format(dbname=dbname)
         elif dbtype.upper() == 'MEMORY':
-- 
2.43.0


From 272f6a12a491c8135dad320feb86489e68aa8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 32/33] fix: the policy authority uses its own configured
 database

It opened the attribute authority's database, so with different databases
configured for the two services none of the registered authorities, sessions
and policies of the policy authority were found.
---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 4e0dabb..1889117 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -126,7 +126,7 @@ class PolicyAuthority(object):
                                      'url': self.url})
 
         PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
-        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?
+        self._db_session = get_session('PAUTH') # TODO: Need new session for each request?
 
     @ladonize(rtype=int)
     def simp(self):
-- 
2.43.0


From 14f312157116ebdd726a44c7b30e2149b274286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:14 +0000
Subject: [PATCH 33/33] fix: a symbol table can be printed

It iterated over the names and read the fields of a symbol from them, so str() of
any table with an attribute in it raised an AttributeError.
---
 hgpl/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index a5ec588..9be879c 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -204,7 +204,7 @@ class SymbolTable(object):
 
     def __str__(self):
         string = "Name\t\tSymbol Type\t\tValue\t\tAtt Type\n"
-        for s in self._symbols:
+        for s in self._symbols.values():
                 string += s.name.lower() + "\t\t" + s.type.name + "\t\t" + str(s.value) + "\t\t" + s.att_type.name + \
                           "\n"
 
-- 
2.43.0

